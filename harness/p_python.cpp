// P31  the Python module returns what the C++ interface computes
#include "solvers.hpp"
#include <time.h>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include "stubs/pybind11/numpy.h"
void vfpy_module_init();   // PYBIND11_MODULE of python/pyopengv.cpp, compiled by g_python.cpp
// held clock: a robust run of the module and of the C++ interface start from the same random numbers
static bool g_hold=false; static long g_now=0;
extern "C" {
time_t time(time_t*t){ time_t r; if(g_hold) r=g_now; else { struct timespec s; clock_gettime(CLOCK_REALTIME,&s); r=s.tv_sec; } if(t) *t=r; return r; }
clock_t clock(void){ if(g_hold) return 0; struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&s); return s.tv_sec*1000000+s.tv_nsec/1000; } }
using namespace vf; namespace py=pybind11; namespace sac=opengv::sac; namespace sp=opengv::sac_problems; using py::vfdetail::P;
typedef sp::absolute_pose::AbsolutePoseSacProblem AbsP; typedef sp::relative_pose::CentralRelativePoseSacProblem RelP; typedef sp::relative_pose::RotationOnlySacProblem RotP;

// an n x 3 (or 3 x 3, or 3) array as the user may hold it: layout 0 C order, 1 Fortran order, 2 every second row of a bigger array, 3 extra column, 4 read backwards, 5 single precision, 6 integers
template<class G> static py::object arr(int rows,int cols,int layout,G f)
{
  std::string dt=layout==5?"f4":layout==6?"i8":"f8"; size_t w=layout==5?4:8; P n;
  if(layout==2||layout==4||layout==3){ std::vector<ssize_t> sh={2*rows+1,cols+1}; n=py::vfdetail::fresh("f8",8,sh); for(double*q=(double*)n->mem->data(),*e=q+(2*rows+1)*(cols+1);q<e;q++) *q=1e9; n->shape={rows,layout==3?cols+1:cols}; ssize_t c=8*(cols+1); n->strides={layout==3?c:2*c,8}; if(layout==4){ // rows in reverse order in memory
        P m=py::vfdetail::fresh("f8",8,{rows,cols}); for(int i=0;i<rows;i++) for(int j=0;j<cols;j++) ((double*)m->mem->data())[(rows-1-i)*cols+(cols-1-j)]=f(i,j); // flipped copy, flipped back by copying on load
        P k=py::vfdetail::fresh("f8",8,{rows,cols},true); for(int i=0;i<rows;i++) for(int j=0;j<cols;j++) *(double*)(k->mem->data()+i*k->strides[0]+j*k->strides[1])=((double*)m->mem->data())[(rows-1-i)*cols+(cols-1-j)]; return py::object(k); } }
  else n=py::vfdetail::fresh(dt,w,{rows,cols},layout==1);
  for(int i=0;i<rows;i++) for(int j=0;j<cols;j++){ unsigned char*p=n->mem->data()+i*n->strides[0]+j*n->strides[1]; double x=f(i,j); if(dt=="f4") *(float*)p=(float)x; else if(dt=="i8") *(long long*)p=(long long)x; else *(double*)p=x; }
  return py::object(n);
}
template<class V> static py::object rows3(const V&v,int layout){ return arr((int)v.size(),3,layout,[&](int i,int j){ return v[i][j]; }); }
static py::object mat33(const Matrix3d&R,int layout){ return arr(3,3,layout==1||layout==2?layout:0,[&](int i,int j){ return R(i,j); }); }
static py::object vec(const Vector3d&t){ P n=py::vfdetail::fresh("f8",8,{3}); for(int k=0;k<3;k++) ((double*)n->mem->data())[k]=t[k]; return py::object(n); }
static py::object vec31(const Vector3d&t){ return arr(3,1,0,[&](int i,int){ return t[i]; }); }
struct Out { std::string shape; std::vector<double> v; bool operator==(const Out&o) const { return shape==o.shape&&sameBits(v,o.v); } };
static Out flat(const P&p)
{
  Out o; if(!p){ o.shape="null"; return o; }
  if(p->kind==py::vfdetail::ARRAY){ o.shape="["; size_t n=1; for(ssize_t x:p->shape){ o.shape+=str("%ld,",(long)x); n*=x; } o.shape+="]"+p->dtype; std::vector<ssize_t> ix(p->shape.size(),0); for(size_t q=0;q<n;q++){ ssize_t a=0; for(size_t k=0;k<ix.size();k++) a+=ix[k]*p->strides[k]; o.v.push_back(py::vfdetail::load(p->dtype,p->mem->data()+a)); for(size_t k=ix.size();k-->0;){ if(++ix[k]<p->shape[k]) break; ix[k]=0; } } return o; }
  if(p->kind==py::vfdetail::LIST){ o.shape="list("; for(auto&x:p->items){ Out q=flat(x); o.shape+=q.shape+" "; o.v.insert(o.v.end(),q.v.begin(),q.v.end()); } o.shape+=")"; return o; }
  o.shape=str("kind %d",(int)p->kind); return o;
}
static Out m1(const MatrixXd&m){ Out o; o.shape=m.cols()==1?"[3,]f8":str("[3,%d,]f8",(int)m.cols()); for(int i=0;i<3;i++) for(int j=0;j<m.cols();j++) o.v.push_back(m(i,j)); return o; }
template<class C> static Out ml(const C&c){ Out o; o.shape="list("; for(auto&x:c){ Out q=m1(MatrixXd(x)); o.shape+=q.shape+" "; o.v.insert(o.v.end(),q.v.begin(),q.v.end()); } o.shape+=")"; return o; }
static Out pts(const points_t&p){ Out o; o.shape=str("[%d,3,]f8",(int)p.size()); for(auto&x:p) for(int j=0;j<3;j++) o.v.push_back(x[j]); return o; }
// everything one call can need
struct Ctx { bearingVectors_t f1,f2; points_t p; Matrix3d R; Vector3d t; std::string algo; double thr,prob; int it; bool found; int iterations; };
template<class S,class Pb> static Out rob(std::shared_ptr<Pb> p,Ctx&c){ S r; r.sac_model_=p; r.threshold_=c.thr; r.max_iterations_=c.it; r.probability_=c.prob; c.found=r.computeModel(); c.iterations=r.iterations_; return m1(MatrixXd(r.model_coefficients_)); }
struct Fn { const char*name; int kind,need; bool exact; std::function<Out(Ctx&)> want; };
// kind: 0 (v,p) 1 (v,p,R) 2 (v,p,t,R) 3 (b1,b2) 4 (b1,b2,R) 5 (b1,b2,t,R) 6 absolute robust 7 relative robust 8 rotation-only robust
static AbsP::algorithm_t absAlg(const std::string&s){ return s=="TWOPT"?AbsP::TWOPT:s=="GAO"?AbsP::GAO:s=="EPNP"?AbsP::EPNP:s=="GP3P"?AbsP::GP3P:AbsP::KNEIP; }
static RelP::algorithm_t relAlg(const std::string&s){ return s=="STEWENIUS"?RelP::STEWENIUS:s=="SEVENPT"?RelP::SEVENPT:s=="EIGHTPT"?RelP::EIGHTPT:RelP::NISTER; }
static const std::vector<Fn>& fns()
{
  static std::vector<Fn> v; if(!v.empty()) return v;
  auto add=[&](const char*n,int k,int need,bool ex,std::function<Out(Ctx&)> f){ Fn x; x.name=n; x.kind=k; x.need=need; x.exact=ex; x.want=f; v.push_back(x); };
#define A0 ap::CentralAbsoluteAdapter a(c.f1,c.p)
#define AR ap::CentralAbsoluteAdapter a(c.f1,c.p,c.R)
#define AT ap::CentralAbsoluteAdapter a(c.f1,c.p,c.t,c.R)
#define R0 rp::CentralRelativeAdapter a(c.f1,c.f2)
#define RR rp::CentralRelativeAdapter a(c.f1,c.f2,c.R)
#define RT rp::CentralRelativeAdapter a(c.f1,c.f2,c.t,c.R)
  add("absolute_pose_p2p",1,2,false,[](Ctx&c){ AR; return m1(ap::p2p(a)); });
  add("absolute_pose_p3p_kneip",0,3,false,[](Ctx&c){ A0; return ml(ap::p3p_kneip(a)); });
  add("absolute_pose_p3p_gao",0,3,false,[](Ctx&c){ A0; return ml(ap::p3p_gao(a)); });
  add("absolute_pose_gp3p",0,3,false,[](Ctx&c){ A0; return ml(ap::gp3p(a)); });
  add("absolute_pose_epnp",0,6,false,[](Ctx&c){ A0; return m1(ap::epnp(a)); });
  add("absolute_pose_gpnp",0,6,false,[](Ctx&c){ A0; return m1(ap::gpnp(a)); });
  add("absolute_pose_upnp",0,4,false,[](Ctx&c){ A0; return ml(ap::upnp(a)); });
  add("absolute_pose_optimize_nonlinear",2,6,false,[](Ctx&c){ AT; return m1(ap::optimize_nonlinear(a)); });
  add("absolute_pose_ransac",6,8,false,[](Ctx&c){ A0; return rob<sac::Ransac<AbsP> >(std::make_shared<AbsP>(a,absAlg(c.algo)),c); });
  add("absolute_pose_lmeds",6,8,false,[](Ctx&c){ A0; return rob<sac::Lmeds<AbsP> >(std::make_shared<AbsP>(a,absAlg(c.algo)),c); });
  add("relative_pose_twopt",4,2,false,[](Ctx&c){ RR; return m1(rp::twopt(a,true)); });
  add("relative_pose_twopt_rotation_only",3,2,false,[](Ctx&c){ R0; return m1(rp::twopt_rotationOnly(a)); });
  add("relative_pose_rotation_only",3,3,false,[](Ctx&c){ R0; return m1(rp::rotationOnly(a)); });
  add("relative_pose_fivept_nister",3,5,false,[](Ctx&c){ R0; return ml(rp::fivept_nister(a)); });
  add("relative_pose_fivept_kneip",3,5,false,[](Ctx&c){ R0; return ml(rp::fivept_kneip(a,iota(5))); });
  add("relative_pose_sevenpt",3,7,false,[](Ctx&c){ R0; return ml(rp::sevenpt(a)); });
  add("relative_pose_eightpt",3,8,false,[](Ctx&c){ R0; return m1(rp::eightpt(a)); });
  add("relative_pose_eigensolver",4,6,false,[](Ctx&c){ RR; return m1(rp::eigensolver(a)); });
  add("relative_pose_sixpt",3,6,true,[](Ctx&c){ R0; return ml(rp::sixpt(a)); });
  add("relative_pose_optimize_nonlinear",5,6,false,[](Ctx&c){ RT; return m1(rp::optimize_nonlinear(a)); });
  add("relative_pose_ransac",7,10,false,[](Ctx&c){ R0; return rob<sac::Ransac<RelP> >(std::make_shared<RelP>(a,relAlg(c.algo)),c); });
  add("relative_pose_lmeds",7,10,false,[](Ctx&c){ R0; return rob<sac::Lmeds<RelP> >(std::make_shared<RelP>(a,relAlg(c.algo)),c); });
  add("relative_pose_ransac_rotation_only",8,6,false,[](Ctx&c){ R0; return rob<sac::Ransac<RotP> >(std::make_shared<RotP>(a),c); });
  add("relative_pose_lmeds_rotation_only",8,6,false,[](Ctx&c){ R0; return rob<sac::Lmeds<RotP> >(std::make_shared<RotP>(a),c); });
  add("triangulation_triangulate",5,1,false,[](Ctx&c){ RT; points_t p; for(size_t k=0;k<c.f1.size();k++) p.push_back(tri::triangulate(a,k)); return pts(p); });
  add("triangulation_triangulate2",5,1,false,[](Ctx&c){ RT; points_t p; for(size_t k=0;k<c.f1.size();k++) p.push_back(tri::triangulate2(a,k)); return pts(p); });
  return v;
}
static void rounded(bearingVectors_t&v,int layout){ if(layout==5) for(auto&x:v) for(int k=0;k<3;k++) x[k]=(double)(float)x[k]; if(layout==6) for(auto&x:v) for(int k=0;k<3;k++) x[k]=floor(5*x[k]+0.5)+(k==0&&x.norm()<0.2); }
static void rounded(points_t&v,int layout,int){ if(layout==5) for(auto&x:v) for(int k=0;k<3;k++) x[k]=(double)(float)x[k]; if(layout==6) for(auto&x:v) for(int k=0;k<3;k++) x[k]=floor(x[k]+0.5); }
static void one(Reporter&R,Rng&g,const Fn&f,int c)
{
  Ctx x; bool rob=f.kind>=6, abs=f.kind<=2||f.kind==6; int n=f.exact?f.need:c%5==0?f.need:f.need+g.i(1,30), layout=c%8==7?0:c%8; if(layout==6&&(rob||f.kind>=3||f.exact)) layout=3; // integers only as absolute data
  double noise=c%3==0?0:c%3==1?1e-3:2e-2, outl=rob?(c%4==0?0:c%4==1?0.15:0.3):c%4==3?0.1:0; static const char*aa[]={"KNEIP","GAO","EPNP","GP3P","TWOPT","unknown"}, *ra[]={"NISTER","STEWENIUS","SEVENPT","EIGHTPT","unknown"}; x.algo=abs?aa[c%6]:ra[c%5];
  if(abs)
  { AbsOpt o; o.n=n; o.noise=noise; if(f.kind==6&&x.algo=="TWOPT") o.rotMax=1e-9; AbsScene s=makeAbs(g,o); for(auto&b:s.f) if(g.p(outl)) b=g.unit(); x.f1=s.f; x.p=s.p; x.R=s.R; x.t=s.t; }
  else { RelOpt o; o.n=n; o.noise=noise; if(f.kind==8||std::string(f.name).find("rotation_only")!=std::string::npos) o.tMax=c%2?0:0.02,o.tMin=0; RelScene s=makeRel(g,o); for(auto&b:s.f2) if(g.p(outl)) b=g.unit(); x.f1=s.f1; x.f2=s.f2; x.R=s.R; x.t=s.t; }
  if(f.kind==1||f.kind==4){ if(g.p(0.3)) x.R=x.R*g.rotMax(0.05); } if(f.kind==2||f.kind==5){ x.R=x.R*g.rotMax(0.03); x.t+=0.03*g.nv(); if(g.p(0.1)){ x.R=g.rot(); x.t=g.box(2); } }
  rounded(x.f1,layout); rounded(x.f2,layout); rounded(x.p,layout,0);
  x.thr=f.kind==8?1e-4:pow(10,g.u(-7,-4)); x.it=1000; x.prob=0.99; x.found=true; x.iterations=0;
  std::vector<py::object> in; in.push_back(rows3(x.f1,layout)); in.push_back(abs?rows3(x.p,layout):rows3(x.f2,layout));
  if(f.kind==2||f.kind==5) in.push_back(c%2||layout==1?vec(x.t):vec31(x.t)); if(f.kind==1||f.kind==2||f.kind==4||f.kind==5) in.push_back(mat33(x.R,layout));
  std::vector<py::object> args=in; std::map<std::string,py::object> kw;
  if(f.kind==2||f.kind==5){} 
  if(rob)
  { int form=c%4; if(form>=1) x.it=form==1?g.i(1,4):g.i(5,400); if(form==3) x.prob=g.u(0.3,0.9999);
    if(f.kind!=8) args.push_back(py::str(x.algo)); if(form==2) kw["threshold"]=py::float_(x.thr); else args.push_back(py::float_(x.thr));
    if(form==1) args.push_back(py::int_(x.it)); if(form==2||form==3) kw["iterations"]=py::int_(x.it); if(form==3) kw["probability"]=py::float_(x.prob);
    if(c%9==8){ const char*n1=abs?"v":"b1",*n2=abs?"p":"b2"; kw[n1]=args[0]; kw[n2]=args[1]; if(f.kind!=8) kw["algo_name"]=args[2]; kw["threshold"]=py::float_(x.thr); kw["iterations"]=py::int_(x.it); kw["probability"]=py::float_(x.prob); args.clear(); }
    R.cov(str("robust call form %d",form)); }
  std::vector<std::vector<unsigned char> > before; for(auto&o:in) before.push_back(*o.p->mem);
  unsigned sd=(unsigned)g.next(); g_hold=true; g_now=sd%1000003+1000; srand(sd); Out w=f.want(x); srand(sd); std::string ctx=str("n=%d noise=%g outliers=%g layout=%d algo=%s iterations=%d probability=%g",n,noise,outl,layout,rob?x.algo.c_str():"-",x.it,x.prob);
  Out o; bool threw=false; std::string what; try { o=flat(vfpy::call(f.name,args,kw).p); } catch(const std::exception&e){ threw=true; what=e.what(); } g_hold=false;
  R.ev(Reporter::h(Reporter::hs(f.name),g.next())); R.cov(std::string("call ")+f.name); R.cov(str("layout %d",layout)); if(rob) R.cov("algorithm "+(f.kind==8?std::string("rotation only"):x.algo)); std::string k=f.name;
  if(threw){ R.fail("raise:"+k,"%s raised '%s' (%s)",f.name,what.c_str(),ctx.c_str()); return; }
  for(size_t q=0;q<in.size();q++) if(*in[q].p->mem!=before[q]) R.fail("input:"+k,"%s modified its argument %zu (%s)",f.name,q,ctx.c_str());
  if(o.shape!=w.shape) R.fail("shape:"+k,"%s returned %s, expected %s (%s)",f.name,o.shape.c_str(),w.shape.c_str(),ctx.c_str());
  else if(x.found&&!sameBits(o.v,w.v)){ size_t b=0; while(b<w.v.size()&&(o.v[b]==w.v[b]||(o.v[b]!=o.v[b]&&w.v[b]!=w.v[b]))) b++; R.fail("value:"+k+(rob&&f.kind!=8?":"+x.algo:""),"%s: element %zu is %.17g, the C++ interface gives %.17g (%s)",f.name,b,o.v[b],w.v[b],ctx.c_str()); }
  R.cov(rob?x.found?"robust run with a model":"robust run without a model":"direct result"); if(rob) R.mx("most iterations of a robust run",x.iterations);
}
// calls Python refuses: an exception, never a read outside the arrays
static void bad(Reporter&R,Rng&g,const Fn&f,int c)
{
  AbsOpt o; o.n=f.need+4; AbsScene s=makeAbs(g,o); bool rob=f.kind>=6; auto full=[&](py::object a,py::object b){ std::vector<py::object> v={a,b}; if(f.kind==2||f.kind==5) v.push_back(vec(s.t)); if(f.kind==1||f.kind==2||f.kind==4||f.kind==5) v.push_back(mat33(s.R,0)); if(f.kind==6||f.kind==7) v.push_back(py::str("KNEIP")); if(rob) v.push_back(py::float_(1e-5)); return v; };
  int n=f.exact?f.need:f.need+4; bearingVectors_t b(s.f.begin(),s.f.begin()+n); points_t p(s.p.begin(),s.p.begin()+n); std::vector<py::object> v; std::string what; std::map<std::string,py::object> kw;
  switch(c%5)
  { case 0: what="second array shorter"; { points_t q(p.begin(),p.begin()+f.need-1); v=full(rows3(b,0),rows3(q,0)); if(f.need==1) return; if(rob) return; } break;
    case 1: what="arrays of two columns"; v=full(arr(n,2,0,[&](int i,int j){ return b[i][j]; }),rows3(p,0)); break;
    case 2: what="one argument missing"; v=full(rows3(b,0),rows3(p,0)); v.pop_back(); break;
    case 3: what="unknown keyword"; v=full(rows3(b,0),rows3(p,0)); kw["no_such"]=py::float_(1); break;
    case 4: what="one argument too many"; v=full(rows3(b,0),rows3(p,0)); v.push_back(py::float_(1)); if(rob){ v.push_back(py::float_(1)); v.push_back(py::float_(1)); } break; }
  bool threw=false; try { vfpy::call(f.name,v,kw); } catch(const std::exception&){ threw=true; } R.ev(Reporter::h(Reporter::hs(f.name+what),c)); R.cov("refused: "+what);
  if(!threw) R.fail("refuse:"+what,"%s with %s returned normally",f.name,what.c_str());
}
void monitor(Reporter&R)
{
  static bool once=false; if(!once){ vfpy_module_init(); once=true; }
  for(auto&f:fns())
  { std::string s=f.name; int n=s.find("sixpt")!=std::string::npos?40:f.kind==6||f.kind==7?60:120; R.each(s,R.N(n,20*n),[&](Rng&g,int c){ one(R,g,f,c); }); R.each("bad/"+s,R.N(5,20),[&](Rng&g,int c){ bad(R,g,f,c); }); }
}
