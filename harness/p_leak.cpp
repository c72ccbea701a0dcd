// P29  memory in use does not grow with the number of calls, nor with objects built and destroyed
#include "worlds.hpp"
#include <new>
#include <errno.h>
using namespace vf;
static thread_local long g_live=0; static long g_total=0;
extern "C" { void*__libc_malloc(size_t); void __libc_free(void*); void*__libc_calloc(size_t,size_t); void*__libc_memalign(size_t,size_t); void*__libc_realloc(void*,size_t);
void*malloc(size_t n){ void*p=__libc_malloc(n); if(p){ g_live++; g_total++; } return p; }
void*calloc(size_t a,size_t b){ void*p=__libc_calloc(a,b); if(p){ g_live++; g_total++; } return p; }
void*realloc(void*q,size_t n){ if(!q) return malloc(n); if(!n){ __libc_free(q); g_live--; return 0; } return __libc_realloc(q,n); }
void*memalign(size_t a,size_t n){ void*p=__libc_memalign(a,n); if(p){ g_live++; g_total++; } return p; }
void*aligned_alloc(size_t a,size_t n){ return memalign(a,n); }
int posix_memalign(void**p,size_t a,size_t n){ *p=memalign(a,n); return *p?0:ENOMEM; }
void free(void*p){ if(p) g_live--; __libc_free(p); } }
void*operator new(size_t n){ void*p=malloc(n?n:1); if(!p) abort(); return p; } void operator delete(void*p) noexcept { free(p); } void operator delete(void*p,size_t) noexcept { free(p); }
static long grow(const Call&c,int n){ long l=g_live; for(int k=0;k<n;k++){ Raw r=call(c); } return g_live-l; }
static void check(Reporter&R,Rng&g,const std::string&w,const WOpt&o)
{
  uint64_t seed=g.next(); long l1=0,l2=0; { Rng a(seed); auto W=makeWorld(a,w,o); } // first use of everything
  { Rng a(seed); long l=g_live; { auto W=makeWorld(a,w,o); } l1=g_live-l; } { Rng a(seed); long l=g_live; { auto W=makeWorld(a,w,o); } l2=g_live-l; }
  if(l1>0&&l2>0) R.fail("objects:"+w,"building and destroying the adapters and problems of '%s' leaves %ld blocks",w.c_str(),l2);
  Rng a(seed); auto W=makeWorld(a,w,o); std::vector<Call>&C=W->calls;
  for(auto&c:C)
  { bool slow=c.name.find("sixpt")!=std::string::npos||c.name.find("ransac")!=std::string::npos||c.name.find("lmeds")!=std::string::npos; int n=slow?1:3; long t0=g_total; grow(c,1); long d=grow(c,n),e=d>0?grow(c,n):0; long allocs=g_total-t0; R.cov("heap blocks allocated by the calls",allocs); R.ev(Reporter::h(Reporter::hs(c.name+o.hostile),seed)); R.cov("calls "+w);
    if(d>0&&e>0) R.fail("call:"+c.name.substr(0,c.name.find('/')),"%s on data '%s': %ld more blocks in use after %d calls, again %ld after %d more",c.name.c_str(),o.hostile.c_str(),d,n,e,n); }
}
void monitor(Reporter&R)
{
  for(auto&w:worldNames()){ bool six=w.find("sixpt")!=std::string::npos||w.find("-ge")!=std::string::npos; int n=w=="abs"||w=="rel"?12:w=="math"?6:six?2:6;
    for(auto&h:hostiles()) R.each(w+"/"+h,R.N(h=="none"?3*n:n,n*30),[&](Rng&g,int c){ WOpt o; o.hostile=h; o.minimal=c%3==0; o.big=c%7==4; o.slow=c%10==0; static const char*fl[]={"std","std","near","tiny","rotaxis"}; o.fl=fl[c%5]; check(R,g,w,o); }); }
}
