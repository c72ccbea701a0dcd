// Stand-in for pybind11/numpy.h, see pybind11.h
#ifndef VERIF_PYBIND11_NUMPY_H_
#define VERIF_PYBIND11_NUMPY_H_
#include "pybind11.h"
namespace pybind11
{
struct buffer_info { void*ptr; ssize_t itemsize; std::string format; ssize_t ndim; std::vector<ssize_t> shape, strides; ssize_t size; };
class array : public object
{
public:
  enum { c_style=1, f_style=2, forcecast=16 };
  typedef std::vector<ssize_t> ShapeContainer;
  array(){} explicit array(vfdetail::P q):object(q){}
  ssize_t ndim() const { return (ssize_t)p->shape.size(); } ssize_t size() const { ssize_t n=1; for(ssize_t x:p->shape) n*=x; return n; }
  const ssize_t* shape() const { return p->shape.data(); } const ssize_t* strides() const { return p->strides.data(); }
  ssize_t shape(ssize_t d) const { if(d>=ndim()) throw index_error("invalid axis"); return p->shape[d]; }
  ssize_t strides(ssize_t d) const { if(d>=ndim()) throw index_error("invalid axis"); return p->strides[d]; }
  ssize_t itemsize() const { return p->dtype.empty()?0:atoi(p->dtype.c_str()+1); } ssize_t nbytes() const { return size()*itemsize(); }
  buffer_info request(bool=false) const { buffer_info b; b.ptr=p->mem->data(); b.itemsize=itemsize(); b.ndim=ndim(); b.shape=p->shape; b.strides=p->strides; b.size=size(); return b; }
protected:
  template<class... I> ssize_t at_bytes(bool all,I... ix) const
  {
    const ssize_t n=sizeof...(I); if(all?n!=ndim():n>ndim()) throw index_error("index dimension mismatch"); ssize_t v[n+1]={(ssize_t)ix...,0}, off=0;
    for(ssize_t k=0;k<n;k++){ if(v[k]<0||v[k]>=p->shape[k]) throw index_error("index out of bounds"); off+=v[k]*p->strides[k]; } return off;
  }
};
template<class T,int N> struct unchecked_reference
{ vfdetail::P p; template<class... I> T& operator()(I... ix) const { ssize_t v[]={(ssize_t)ix...}, off=0; for(size_t k=0;k<sizeof...(I);k++) off+=v[k]*p->strides[k]; if(off<0||off+(ssize_t)sizeof(T)>(ssize_t)p->mem->size()) abort(); return *(T*)(p->mem->data()+off); } ssize_t shape(ssize_t d) const { return p->shape[d]; } ssize_t ndim() const { return p->shape.size(); } };
template<class T,int Flags=array::forcecast> class array_t : public array
{
public:
  array_t(){ p=vfdetail::fresh(vfdetail::dtype<T>(),sizeof(T),ShapeContainer(1,0)); } explicit array_t(vfdetail::P q):array(q){}
  template<class S,class=typename std::enable_if<std::is_integral<S>::value>::type> explicit array_t(S n,const T*d=nullptr){ init(ShapeContainer(1,(ssize_t)n),d); }
  template<class S,class=typename std::enable_if<std::is_integral<S>::value>::type> array_t(std::initializer_list<S> s,const T*d=nullptr){ init(ShapeContainer(s.begin(),s.end()),d); }
  array_t(const ShapeContainer&s,const T*d=nullptr){ init(s,d); }
  template<class... I> const T* data(I... ix) const { return (const T*)(p->mem->data()+at_bytes(false,ix...)); }
  template<class... I> T* mutable_data(I... ix){ return (T*)(p->mem->data()+at_bytes(false,ix...)); }
  template<class... I> const T& at(I... ix) const { return *(const T*)(p->mem->data()+at_bytes(true,ix...)); }
  template<class... I> T& mutable_at(I... ix){ return *(T*)(p->mem->data()+at_bytes(true,ix...)); }
  template<int N> unchecked_reference<const T,N> unchecked() const { if(N!=ndim()) throw value_error("wrong number of dimensions"); return unchecked_reference<const T,N>{p}; }
  template<int N> unchecked_reference<T,N> mutable_unchecked(){ if(N!=ndim()) throw value_error("wrong number of dimensions"); return unchecked_reference<T,N>{p}; }
private:
  void init(const ShapeContainer&s,const T*d){ p=vfdetail::fresh(vfdetail::dtype<T>(),sizeof(T),s,(Flags&array::f_style)&&!(Flags&array::c_style)); if(d) std::copy(d,d+size(),(T*)p->mem->data()); }
};
}
namespace vfpy
{
// numpy's PyArray_FromAny: the array itself when it satisfies the flags, otherwise a converted copy
template<class T,int Flags> struct Load<pybind11::array_t<T,Flags>,void>
{
  pybind11::array_t<T,Flags> v;
  explicit Load(const object&o)
  {
    using namespace pybind11; vfdetail::P s=o.p; if(!s||s->kind!=vfdetail::ARRAY) throw cast_error("not an array"); bool same=s->dtype==vfdetail::dtype<T>(); if(!same&&!(Flags&array::forcecast)) throw cast_error("dtype");
    bool wantC=Flags&array::c_style, wantF=Flags&array::f_style; vfdetail::P c=vfdetail::fresh(vfdetail::dtype<T>(),sizeof(T),s->shape,wantF&&!wantC);
    bool ok=same; if(ok&&(wantC||wantF)) ok=s->strides==c->strides;
    if(ok){ v.p=s; return; }
    size_t n=1; for(ssize_t x:s->shape) n*=x; std::vector<ssize_t> ix(s->shape.size(),0);
    for(size_t q=0;q<n;q++){ ssize_t a=0,b=0; for(size_t k=0;k<ix.size();k++){ a+=ix[k]*s->strides[k]; b+=ix[k]*c->strides[k]; } *(T*)(c->mem->data()+b)=(T)vfdetail::load(s->dtype,s->mem->data()+a); for(size_t k=ix.size();k-->0;){ if(++ix[k]<s->shape[k]) break; ix[k]=0; } }
    v.p=c;
  }
  pybind11::array_t<T,Flags>& get(){ return v; }
};
}
#endif
