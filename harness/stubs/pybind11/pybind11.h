#include <stdlib.h>
// Stand-in for pybind11: enough of its interface to execute a module of plain
// functions, with the documented semantics (argument conversion as requested by
// array_t's flags, bounds and dimension checks of data()/at(), default arguments).
// A registered function is called through vfpy::call(name, arguments, keywords).
#ifndef VERIF_PYBIND11_H_
#define VERIF_PYBIND11_H_
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#define PYBIND11_VERSION_MAJOR 2
namespace pybind11
{
typedef ssize_t ssize_t_;
struct builtin_exception : std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : builtin_exception { using builtin_exception::builtin_exception; };
struct value_error : builtin_exception { using builtin_exception::builtin_exception; };
struct type_error : builtin_exception { using builtin_exception::builtin_exception; };
struct cast_error : builtin_exception { using builtin_exception::builtin_exception; };
struct error_already_set : builtin_exception { using builtin_exception::builtin_exception; };
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

namespace vfdetail
{
enum Kind { NONE, ARRAY, LIST, TUPLE, DICT, INT, FLOAT, STR, BOOL };
struct Node
{
  Kind kind; std::string dtype; std::vector<ssize_t> shape, strides; std::shared_ptr<std::vector<unsigned char> > mem; // ARRAY, strides in bytes
  std::vector<std::shared_ptr<Node> > items; std::vector<std::pair<std::string,std::shared_ptr<Node> > > dict; long long i; double f; std::string s;
  Node():kind(NONE),i(0),f(0){}
};
typedef std::shared_ptr<Node> P;
template<class T> inline std::string dtype(){ return std::string(std::is_floating_point<T>::value?"f":std::is_same<T,bool>::value?"b":std::is_signed<T>::value?"i":"u")+std::to_string(sizeof(T)); }
inline double load(const std::string&d,const unsigned char*p)
{ if(d=="f8") return *(const double*)p; if(d=="f4") return *(const float*)p; if(d=="i4") return *(const int*)p; if(d=="i8") return (double)*(const long long*)p; if(d=="u1"||d=="b1") return *p; if(d=="u4") return *(const unsigned*)p; if(d=="u8") return (double)*(const unsigned long long*)p; throw type_error("dtype "+d); }
inline P fresh(const std::string&d,size_t w,const std::vector<ssize_t>&shape,bool forder=false)
{ P n(new Node); n->kind=ARRAY; n->dtype=d; n->shape=shape; size_t k=1; for(ssize_t x:shape){ if(x<0) throw value_error("negative dimension"); k*=x; } n->strides.assign(shape.size(),0); ssize_t st=w; if(forder) for(size_t q=0;q<shape.size();q++){ n->strides[q]=st; st*=shape[q]; } else for(size_t q=shape.size();q-->0;){ n->strides[q]=st; st*=shape[q]; } n->mem.reset(new std::vector<unsigned char>(k*w+8,0)); return n; }
}
class handle { public: vfdetail::P p; handle(){} explicit handle(vfdetail::P q):p(q){} bool is_none() const { return !p||p->kind==vfdetail::NONE; } explicit operator bool() const { return (bool)p; } template<class T> T cast() const; };
class object : public handle { public: object(){} explicit object(vfdetail::P q):handle(q){} object(const handle&h):handle(h){} };
class none : public object { public: none():object(vfdetail::P(new vfdetail::Node)){} };
class float_ : public object { public: float_(double x=0){ p.reset(new vfdetail::Node); p->kind=vfdetail::FLOAT; p->f=x; } };
class int_ : public object { public: int_(long long x=0){ p.reset(new vfdetail::Node); p->kind=vfdetail::INT; p->i=x; } };
class bool_ : public object { public: bool_(bool x=false){ p.reset(new vfdetail::Node); p->kind=vfdetail::BOOL; p->i=x; } };
class str : public object { public: str(const std::string&x=""){ p.reset(new vfdetail::Node); p->kind=vfdetail::STR; p->s=x; } str(const char*x):str(std::string(x)){} operator std::string() const { return p->s; } };
template<class T> inline object cast(const T&x)
{
  if constexpr(std::is_base_of<handle,T>::value) return object(x.p); else if constexpr(std::is_same<T,bool>::value) return bool_(x); else if constexpr(std::is_integral<T>::value) return int_((long long)x);
  else if constexpr(std::is_floating_point<T>::value) return float_(x); else return str(std::string(x));
}
template<class T> inline T handle::cast() const
{
  if constexpr(std::is_base_of<handle,T>::value){ T t; t.p=p; return t; }
  else if constexpr(std::is_same<T,std::string>::value){ if(!p||p->kind!=vfdetail::STR) throw cast_error("not a string"); return p->s; }
  else if constexpr(std::is_same<T,bool>::value){ if(!p||p->kind!=vfdetail::BOOL) throw cast_error("not a bool"); return p->i!=0; }
  else if constexpr(std::is_integral<T>::value){ if(!p||(p->kind!=vfdetail::INT&&p->kind!=vfdetail::BOOL)) throw cast_error("not an integer"); return (T)p->i; }
  else { if(!p||(p->kind!=vfdetail::FLOAT&&p->kind!=vfdetail::INT&&p->kind!=vfdetail::BOOL)) throw cast_error("not a number"); return p->kind==vfdetail::FLOAT?(T)p->f:(T)p->i; }
}
class list : public object
{
public:
  list(){ p.reset(new vfdetail::Node); p->kind=vfdetail::LIST; } explicit list(size_t n):list(){ p->items.resize(n); }
  template<class T> void append(const T&x){ p->items.push_back(pybind11::cast(x).p); } template<class T> void insert(size_t k,const T&x){ p->items.insert(p->items.begin()+k,pybind11::cast(x).p); }
  size_t size() const { return p->items.size(); } bool empty() const { return p->items.empty(); }
  struct Ref { vfdetail::P n; size_t k; operator object() const { return object(n->items.at(k)); } template<class T> Ref& operator=(const T&x){ n->items.at(k)=pybind11::cast(x).p; return *this; } };
  Ref operator[](size_t k) const { return Ref{p,k}; }
};
class tuple : public object { public: tuple(){ p.reset(new vfdetail::Node); p->kind=vfdetail::TUPLE; } size_t size() const { return p->items.size(); } };
template<return_value_policy=return_value_policy::automatic_reference,class... A> inline tuple make_tuple(const A&... a){ tuple t; int q[]={0,(t.p->items.push_back(pybind11::cast(a).p),0)...}; (void)q; return t; }
class dict : public object { public: dict(){ p.reset(new vfdetail::Node); p->kind=vfdetail::DICT; } struct Ref { vfdetail::P n; std::string k; template<class T> Ref& operator=(const T&x){ n->dict.push_back(std::make_pair(k,pybind11::cast(x).p)); return *this; } }; Ref operator[](const char*k){ return Ref{p,k}; } };

struct arg_v;
struct arg { std::string name; bool noconv; arg(const char*n):name(n),noconv(false){} template<class T> arg_v operator=(const T&v) const; arg&noconvert(bool f=true){ noconv=f; return *this; } };
struct arg_v : arg { object value; arg_v(const arg&a,const object&v):arg(a),value(v){} };
template<class T> inline arg_v arg::operator=(const T&v) const { return arg_v(*this,pybind11::cast(v)); }
namespace literals { inline arg operator"" _a(const char*n,size_t){ return arg(n); } }
struct doc { const char*s; doc(const char*x):s(x){} };
struct kw_only{}; struct pos_only{};
struct gil_scoped_release { gil_scoped_release(){} ~gil_scoped_release(){} }; struct gil_scoped_acquire { gil_scoped_acquire(){} ~gil_scoped_acquire(){} };
template<class T> struct call_guard{};
} // namespace pybind11

namespace vfpy
{
using pybind11::object;
struct Function { std::string name; size_t arity; std::vector<std::string> args; std::vector<object> defaults; std::vector<bool> has; std::function<object(const std::vector<object>&)> run; };
inline std::map<std::string,std::vector<Function> >& functions(){ static std::map<std::string,std::vector<Function> > m; return m; }
// conversion of one Python argument to the C++ parameter type; specialised for arrays in numpy.h
template<class T,class=void> struct Load { T v; explicit Load(const object&o):v(o.cast<T>()){} T& get(){ return v; } };
inline object call(const std::string&name,const std::vector<object>&pos,const std::map<std::string,object>&kw=std::map<std::string,object>())
{
  auto it=functions().find(name); if(it==functions().end()) throw pybind11::type_error("no function "+name);
  std::string why="incompatible function arguments";
  for(Function&f:it->second)
  {
    if(pos.size()>f.arity) continue; std::vector<object> a(f.arity); std::vector<bool> set(f.arity,false); for(size_t k=0;k<pos.size();k++){ a[k]=pos[k]; set[k]=true; } bool ok=true;
    for(auto&x:kw){ size_t k=0; while(k<f.args.size()&&f.args[k]!=x.first) k++; if(k>=f.args.size()||k>=f.arity||set[k]){ ok=false; break; } a[k]=x.second; set[k]=true; }
    for(size_t k=0;k<f.arity&&ok;k++) if(!set[k]){ if(k<f.has.size()&&f.has[k]) a[k]=f.defaults[k]; else ok=false; }
    if(!ok) continue;
    try { return f.run(a); } catch(const pybind11::cast_error&e){ why=e.what(); }
  }
  throw pybind11::type_error(name+": "+why);
}
}
namespace pybind11
{
class module_ : public object
{
  template<class T> static void extra(vfpy::Function&f,const T&x)
  { if constexpr(std::is_same<T,arg_v>::value){ f.args.push_back(x.name); f.defaults.push_back(x.value); f.has.push_back(true); } else if constexpr(std::is_same<T,arg>::value){ f.args.push_back(x.name); f.defaults.push_back(object()); f.has.push_back(false); } }
  template<class R,class... A,size_t... I> static object go(const std::function<R(A...)>&fn,const std::vector<object>&a,std::index_sequence<I...>)
  { std::tuple<std::unique_ptr<vfpy::Load<typename std::remove_cv<typename std::remove_reference<A>::type>::type> >...> l{ std::unique_ptr<vfpy::Load<typename std::remove_cv<typename std::remove_reference<A>::type>::type> >(new vfpy::Load<typename std::remove_cv<typename std::remove_reference<A>::type>::type>(a[I]))... };
    if constexpr(std::is_void<R>::value){ fn(std::get<I>(l)->get()...); return none(); } else return pybind11::cast(fn(std::get<I>(l)->get()...)); }
  template<class R,class... A,class... E> module_& add(const char*name,std::function<R(A...)> fn,const E&... e)
  { vfpy::Function f; f.name=name; f.arity=sizeof...(A); int q[]={0,(extra(f,e),0)...}; (void)q; f.run=[fn](const std::vector<object>&a){ return go<R,A...>(fn,a,std::index_sequence_for<A...>()); }; vfpy::functions()[name].push_back(f); return *this; }
public:
  template<class R,class... A,class... E> module_& def(const char*name,R(*fn)(A...),const E&... e){ return add<R,A...>(name,std::function<R(A...)>(fn),e...); }
  template<class F,class... E,class=typename std::enable_if<!std::is_pointer<F>::value&&!std::is_function<F>::value>::type> module_& def(const char*name,F fn,const E&... e){ return lam(name,fn,&F::operator(),e...); }
  template<class T> void attr(const char*,const T&){}
  std::string& doc(){ static std::string s; return s; }
  module_ def_submodule(const char*,const char* =0){ return module_(); }
private:
  template<class F,class R,class C,class... A,class... E> module_& lam(const char*name,F fn,R(C::*)(A...) const,const E&... e){ return add<R,A...>(name,std::function<R(A...)>(fn),e...); }
};
typedef module_ module;
}
#define PYBIND11_MODULE(name,variable,...) static void vfpy_init_##name(pybind11::module_&); void vfpy_module_init(){ pybind11::module_ m; vfpy_init_##name(m); } static void vfpy_init_##name(pybind11::module_&variable)
namespace py_unused_ {}
#endif
