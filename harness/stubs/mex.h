// Stand-in for MATLAB's mex.h: the array type and the functions a gateway uses,
// with the documented behaviour (column-major data, zero-initialised new
// arrays, every array owned by the caller or by the collector of the session).
#ifndef VERIF_MEX_H_
#define VERIF_MEX_H_
#include <math.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdexcept>
#include <string>
#include <vector>
typedef size_t mwSize; typedef size_t mwIndex; typedef ptrdiff_t mwSignedIndex; typedef bool mxLogical; typedef unsigned short mxChar;
typedef enum { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
struct mxArray_tag { mxClassID cls; std::vector<mwSize> dims; std::vector<double> store; size_t bytes; std::string text; };
typedef struct mxArray_tag mxArray;
namespace vfmex
{
struct Error : std::runtime_error { explicit Error(const std::string&s):std::runtime_error(s){} };
inline std::string& log(){ static std::string s; return s; }
inline std::vector<mxArray*>& born(){ static std::vector<mxArray*> v; return v; }   // arrays the gateway created
inline std::vector<void*>& heap(){ static std::vector<void*> v; return v; }         // mxMalloc, freed at the end of the call as MATLAB does
inline size_t width(mxClassID c){ switch(c){ case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; case mxINT16_CLASS: case mxUINT16_CLASS: case mxCHAR_CLASS: return 2; default: return 1; } }
inline mxArray* make(mxClassID c,const std::vector<mwSize>&d){ mxArray*a=new mxArray; a->cls=c; a->dims=d; while(a->dims.size()>2&&a->dims.back()==1) a->dims.pop_back(); size_t n=1; for(mwSize x:d) n*=x; a->bytes=n*width(c); a->store.assign(a->bytes/8+1,0.0); return a; }
}
inline mxClassID mxGetClassID(const mxArray*a){ return a->cls; }
inline bool mxIsDouble(const mxArray*a){ return a->cls==mxDOUBLE_CLASS; }
inline bool mxIsChar(const mxArray*a){ return a->cls==mxCHAR_CLASS; }
inline bool mxIsInt32(const mxArray*a){ return a->cls==mxINT32_CLASS; }
inline bool mxIsComplex(const mxArray*){ return false; }
inline bool mxIsSparse(const mxArray*){ return false; }
inline bool mxIsNumeric(const mxArray*a){ return a->cls>=mxDOUBLE_CLASS; }
inline mwSize mxGetNumberOfDimensions(const mxArray*a){ return a->dims.size(); }
inline const mwSize* mxGetDimensions(const mxArray*a){ return a->dims.data(); }
inline size_t mxGetM(const mxArray*a){ return a->dims[0]; }
inline size_t mxGetN(const mxArray*a){ size_t n=1; for(size_t k=1;k<a->dims.size();k++) n*=a->dims[k]; return n; }
inline size_t mxGetNumberOfElements(const mxArray*a){ return mxGetM(a)*mxGetN(a); }
inline bool mxIsEmpty(const mxArray*a){ return mxGetNumberOfElements(a)==0; }
inline size_t mxGetElementSize(const mxArray*a){ return vfmex::width(a->cls); }
inline void* mxGetData(const mxArray*a){ return (void*)a->store.data(); }
inline double* mxGetPr(const mxArray*a){ return (double*)a->store.data(); }
inline double* mxGetDoubles(const mxArray*a){ return (double*)a->store.data(); }
inline double mxGetScalar(const mxArray*a){ return a->store[0]; }
inline int mxGetString(const mxArray*a,char*b,mwSize n){ if(a->cls!=mxCHAR_CLASS){ if(n) b[0]=0; return 1; } size_t k=a->text.size(); if(k+1>n){ k=n?n-1:0; memcpy(b,a->text.data(),k); if(n) b[k]=0; return 1; } memcpy(b,a->text.data(),k); b[k]=0; return 0; }
inline void* mxMalloc(size_t n){ void*p=malloc(n?n:1); vfmex::heap().push_back(p); return p; }
inline void* mxCalloc(size_t n,size_t s){ void*p=calloc(n?n:1,s?s:1); vfmex::heap().push_back(p); return p; }
inline void mxFree(void*p){ auto&h=vfmex::heap(); for(size_t k=0;k<h.size();k++) if(h[k]==p){ h.erase(h.begin()+k); free(p); return; } }
inline char* mxArrayToString(const mxArray*a){ if(a->cls!=mxCHAR_CLASS) return 0; char*p=(char*)mxMalloc(a->text.size()+1); memcpy(p,a->text.c_str(),a->text.size()+1); return p; }
inline mxArray* mxCreateNumericArray(mwSize n,const mwSize*d,mxClassID c,mxComplexity){ mxArray*a=vfmex::make(c,std::vector<mwSize>(d,d+n)); vfmex::born().push_back(a); return a; }
inline mxArray* mxCreateNumericMatrix(mwSize m,mwSize n,mxClassID c,mxComplexity f){ mwSize d[2]={m,n}; return mxCreateNumericArray(2,d,c,f); }
inline mxArray* mxCreateDoubleMatrix(mwSize m,mwSize n,mxComplexity f){ return mxCreateNumericMatrix(m,n,mxDOUBLE_CLASS,f); }
inline mxArray* mxCreateDoubleScalar(double x){ mxArray*a=mxCreateDoubleMatrix(1,1,mxREAL); a->store[0]=x; return a; }
inline void mxDestroyArray(mxArray*a){ auto&h=vfmex::born(); for(size_t k=0;k<h.size();k++) if(h[k]==a){ h.erase(h.begin()+k); delete a; return; } }
inline int mexPrintf(const char*f,...){ char b[2000]; va_list a; va_start(a,f); int k=vsnprintf(b,sizeof b,f,a); va_end(a); vfmex::log()+=b; return k; }
inline void mexErrMsgTxt(const char*m){ throw vfmex::Error(m); }
inline void mexErrMsgIdAndTxt(const char*,const char*f,...){ char b[2000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); throw vfmex::Error(b); }
inline void mexWarnMsgTxt(const char*m){ vfmex::log()+=m; }
inline void mexWarnMsgIdAndTxt(const char*,const char*f,...){ char b[2000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); vfmex::log()+=b; }
#endif
