// P30  the MATLAB gateway returns what the C++ interface computes
#include "solvers.hpp"
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
#include <time.h>
#include <errno.h>
#include <memory>
// the clock is held while one call runs, so that a robust run of the gateway and
// the same run of the C++ interface start from the same random numbers
static bool g_hold=false; static long g_now=0; static thread_local long g_live=0;
extern "C" {
time_t time(time_t*t){ time_t r; if(g_hold) r=g_now; else { struct timespec s; clock_gettime(CLOCK_REALTIME,&s); r=s.tv_sec; } if(t) *t=r; return r; }
clock_t clock(void){ if(g_hold) return 0; struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&s); return s.tv_sec*1000000+s.tv_nsec/1000; }
void*__libc_malloc(size_t); void __libc_free(void*); void*__libc_calloc(size_t,size_t); void*__libc_memalign(size_t,size_t); void*__libc_realloc(void*,size_t);
void*malloc(size_t n){ void*p=__libc_malloc(n); if(p) g_live++; return p; }
void*calloc(size_t a,size_t b){ void*p=__libc_calloc(a,b); if(p) g_live++; return p; }
void*realloc(void*q,size_t n){ if(!q) return malloc(n); if(!n){ __libc_free(q); g_live--; return 0; } return __libc_realloc(q,n); }
void*memalign(size_t a,size_t n){ void*p=__libc_memalign(a,n); if(p) g_live++; return p; }
void*aligned_alloc(size_t a,size_t n){ return memalign(a,n); }
int posix_memalign(void**p,size_t a,size_t n){ *p=memalign(a,n); return *p?0:ENOMEM; }
void free(void*p){ if(p) g_live--; __libc_free(p); } }
void*operator new(size_t n){ void*p=malloc(n?n:1); if(!p) abort(); return p; } void operator delete(void*p) noexcept { free(p); } void operator delete(void*p,size_t) noexcept { free(p); }
#include "stubs/mex.h"
void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] );   // matlab/opengv.cpp, compiled by g_matlab.cpp
using namespace vf;
namespace sac=opengv::sac; namespace sp=opengv::sac_problems;
typedef sp::absolute_pose::AbsolutePoseSacProblem AbsP; typedef sp::relative_pose::CentralRelativePoseSacProblem RelP; typedef sp::relative_pose::NoncentralRelativePoseSacProblem NrelP;
typedef sp::relative_pose::RotationOnlySacProblem RotP; typedef sp::relative_pose::EigensolverSacProblem EigP; typedef sp::point_cloud::PointCloudSacProblem PcP;

// what one call has to return
struct Want { bool ok,robust,found; std::vector<size_t> dims; std::vector<double> v; VI inl; Want():ok(true),robust(false),found(true){} };
template<class C> static void pack(Want&w,const C&c,int cols){ w.dims={3,(size_t)cols,c.size()}; for(auto&x:c) for(int j=0;j<cols;j++) for(int i=0;i<3;i++) w.v.push_back(x(i,j)); }
static void pack1(Want&w,const MatrixXd&m){ w.dims={3,(size_t)m.cols()}; for(int j=0;j<m.cols();j++) for(int i=0;i<3;i++) w.v.push_back(m(i,j)); }
static const double THR=1.0-cos(atan(sqrt(2.0)*0.5/800.0));
static MatrixXd mat(const transformation_t&m){ return m; } static MatrixXd mat(const rotation_t&m){ return m; } static MatrixXd mat(const opengv::eigensolverOutput_t&o){ MatrixXd m(3,4); m<<o.rotation,o.translation; return m; }
template<class P> static Want robust(std::shared_ptr<P> p,double thr,bool refine=false)
{ Want w; w.robust=true; sac::Ransac<P> r; r.sac_model_=p; r.threshold_=thr; r.max_iterations_=50; w.found=r.computeModel(); w.inl=r.inliers_; for(int&k:w.inl) k++;
  if(refine){ typename P::model_t o; p->optimizeModelCoefficients(r.inliers_,r.model_coefficients_,o); pack1(w,mat(o)); } else pack1(w,mat(r.model_coefficients_)); return w; }
template<class P,class A,class G> static std::shared_ptr<P> prob(A&a,G g,const VI*i){ return std::shared_ptr<P>(i?new P(a,g,*i):new P(a,g)); }
template<class P,class A> static std::shared_ptr<P> prob0(A&a,const VI*i){ return std::shared_ptr<P>(i?new P(a,*i):new P(a)); }

static Want direct(const std::string&m,ap::AbsoluteAdapterBase*a,rp::RelativeAdapterBase*r,pc::PointCloudAdapterBase*c,const VI*i)
{
  Want w; if(a)
  {
    if(m=="p3p_kneip_ransac") return robust(prob<AbsP>(*a,AbsP::KNEIP,i),THR); if(m=="p3p_gao_ransac") return robust(prob<AbsP>(*a,AbsP::GAO,i),THR); if(m=="epnp_ransac") return robust(prob<AbsP>(*a,AbsP::EPNP,i),THR); if(m=="gp3p_ransac") return robust(prob<AbsP>(*a,AbsP::GP3P,i),THR);
    if(m=="p2p"){ pack1(w,i?ap::p2p(*a,*i):ap::p2p(*a)); return w; }
    if(m=="p3p_kneip"){ pack(w,i?ap::p3p_kneip(*a,*i):ap::p3p_kneip(*a),4); return w; } if(m=="p3p_gao"){ pack(w,i?ap::p3p_gao(*a,*i):ap::p3p_gao(*a),4); return w; }
    if(m=="gp3p"){ pack(w,i?ap::gp3p(*a,*i):ap::gp3p(*a),4); return w; } if(m=="upnp"){ pack(w,i?ap::upnp(*a,*i):ap::upnp(*a),4); return w; }
    if(m=="epnp"){ pack1(w,i?ap::epnp(*a,*i):ap::epnp(*a)); return w; } if(m=="gpnp"){ pack1(w,i?ap::gpnp(*a,*i):ap::gpnp(*a)); return w; }
    pack1(w,i?ap::optimize_nonlinear(*a,*i):ap::optimize_nonlinear(*a)); return w;
  }
  if(c)
  { if(m=="threept_arun_ransac") return robust(prob0<PcP>(*c,i),0.1); pack1(w,i?pc::threept_arun(*c,*i):pc::threept_arun(*c)); return w; }
  double T=2.0*THR;
  if(m=="rotationOnly_ransac") return robust(prob0<RotP>(*r,i),T); if(m=="fivept_stewenius_ransac") return robust(prob<RelP>(*r,RelP::STEWENIUS,i),T,true); if(m=="fivept_nister_ransac") return robust(prob<RelP>(*r,RelP::NISTER,i),T);
  if(m=="sevenpt_ransac") return robust(prob<RelP>(*r,RelP::SEVENPT,i),T); if(m=="eightpt_ransac") return robust(prob<RelP>(*r,RelP::EIGHTPT,i),T); if(m=="eigensolver_ransac") return robust(prob<EigP>(*r,10,i),1.0);
  if(m=="sixpt_ransac") return robust(prob<NrelP>(*r,NrelP::SIXPT,i),T); if(m=="seventeenpt_ransac") return robust(prob<NrelP>(*r,NrelP::SEVENTEENPT,i),T); if(m=="ge_ransac") return robust(prob<NrelP>(*r,NrelP::GE,i),T);
  if(m=="twopt"){ pack1(w,i?rp::twopt(*r,false,*i):rp::twopt(*r,false)); return w; }
  if(m=="twopt_rotationOnly"){ pack1(w,i?rp::twopt_rotationOnly(*r,*i):rp::twopt_rotationOnly(*r)); return w; } if(m=="rotationOnly"){ pack1(w,i?rp::rotationOnly(*r,*i):rp::rotationOnly(*r)); return w; }
  if(m=="fivept_stewenius"){ opengv::complexEssentials_t e=i?rp::fivept_stewenius(*r,*i):rp::fivept_stewenius(*r); essentials_t f; for(auto&x:e) f.push_back(x.real()); pack(w,f,3); return w; }
  if(m=="fivept_nister"){ pack(w,i?rp::fivept_nister(*r,*i):rp::fivept_nister(*r),3); return w; } if(m=="fivept_kneip"){ if(!i){ w.ok=false; return w; } pack(w,rp::fivept_kneip(*r,*i),3); return w; }
  if(m=="sevenpt"){ pack(w,i?rp::sevenpt(*r,*i):rp::sevenpt(*r),3); return w; } if(m=="eightpt"){ pack1(w,i?rp::eightpt(*r,*i):rp::eightpt(*r)); return w; } if(m=="eigensolver"){ pack1(w,i?rp::eigensolver(*r,*i):rp::eigensolver(*r)); return w; }
  if(m=="sixpt"){ pack(w,i?rp::sixpt(*r,*i):rp::sixpt(*r),3); return w; } if(m=="seventeenpt"){ pack1(w,i?rp::seventeenpt(*r,*i):rp::seventeenpt(*r)); return w; }
  if(m=="ge"){ opengv::geOutput_t o; o.rotation=r->getR12(); pack1(w,i?rp::ge(*r,*i,o):rp::ge(*r,o)); return w; }
  pack1(w,i?rp::optimize_nonlinear(*r,*i):rp::optimize_nonlinear(*r)); return w;
}
// fam: 0 central absolute, 1 noncentral absolute, 2 central relative, 3 noncentral relative, 4 point cloud
struct M { const char*name; int fam,need; bool upnp; };
static const M METHODS[]={ {"p2p",0,2,0},{"p3p_kneip",0,3,0},{"p3p_gao",0,3,0},{"epnp",0,6,0},{"p3p_kneip_ransac",0,4,0},{"p3p_gao_ransac",0,4,0},{"epnp_ransac",0,7,0},{"abs_nonlin_central",0,6,0},
  {"gp3p",1,3,0},{"gp3p_ransac",1,4,0},{"gpnp",1,6,0},{"abs_nonlin_noncentral",1,6,0},{"upnp",0,4,1},{"upnp",1,4,1},
  {"twopt",2,2,0},{"twopt_rotationOnly",2,2,0},{"rotationOnly",2,3,0},{"fivept_stewenius",2,5,0},{"fivept_nister",2,5,0},{"fivept_kneip",2,5,0},{"sevenpt",2,7,0},{"eightpt",2,8,0},{"eigensolver",2,6,0},
  {"rotationOnly_ransac",2,3,0},{"fivept_stewenius_ransac",2,8,0},{"fivept_nister_ransac",2,8,0},{"sevenpt_ransac",2,9,0},{"eightpt_ransac",2,9,0},{"eigensolver_ransac",2,10,0},{"rel_nonlin_central",2,6,0},
  {"sixpt",3,6,0},{"seventeenpt",3,17,0},{"ge",3,7,0},{"sixpt_ransac",3,9,0},{"seventeenpt_ransac",3,17,0},{"ge_ransac",3,8,0},{"rel_nonlin_noncentral",3,6,0},
  {"threept_arun",4,3,0},{"threept_arun_ransac",4,3,0} };
static bool isRobust(const std::string&m){ return m.find("ransac")!=std::string::npos; }

struct Arr { mxArray*a; std::vector<double> before; Arr():a(0){} ~Arr(){ delete a; } Arr(const Arr&)=delete; Arr&operator=(const Arr&)=delete;
  void set(mxArray*x){ delete a; a=x; before=x->store; }
  void num(const MatrixXd&m){ mxArray*x=vfmex::make(mxDOUBLE_CLASS,{(mwSize)m.rows(),(mwSize)m.cols()}); x->dims={(mwSize)m.rows(),(mwSize)m.cols()}; for(int j=0;j<m.cols();j++) for(int i=0;i<m.rows();i++) x->store[j*m.rows()+i]=m(i,j); set(x); }
  void text(const std::string&s){ mxArray*x=vfmex::make(mxCHAR_CLASS,{1,(mwSize)s.size()}); x->text=s; set(x); }
  bool same() const { return a->store.size()==before.size()&&!memcmp(a->store.data(),before.data(),8*before.size()); } };
struct Got { std::vector<size_t> dims[2]; mxClassID cls[2]; std::vector<double> v; VI inl; bool made[2],threw; std::string log; long grew; Got(){ made[0]=made[1]=threw=false; grew=0; } };
static Got callMex(int nlhs,const std::vector<const mxArray*>&in)
{
  Got g; mxArray*out[8]={0,0,0,0,0,0,0,0}; const mxArray*rhs[8]; for(size_t k=0;k<in.size();k++) rhs[k]=in[k];
  { vfmex::log().clear(); vfmex::log().shrink_to_fit(); vfmex::born().clear(); vfmex::born().shrink_to_fit(); vfmex::heap().clear(); vfmex::heap().shrink_to_fit(); }
  long before=g_live;
  try { mexFunction(nlhs,out,(int)in.size(),rhs); } catch(const vfmex::Error&e){ g.threw=true; vfmex::log()+=e.what(); }
  for(void*p:vfmex::heap()) free(p);
  vfmex::heap().clear(); vfmex::heap().shrink_to_fit();
  for(int k=0;k<2;k++) if(out[k]){ g.made[k]=true; g.cls[k]=out[k]->cls; }
  struct Keep{ std::vector<double> s; std::vector<size_t> d; size_t bytes; } keep[2];
  for(int k=0;k<2;k++) if(out[k]){ keep[k].s.swap(out[k]->store); keep[k].d.swap(out[k]->dims); keep[k].bytes=out[k]->bytes; }
  for(mxArray*a:vfmex::born()) delete a; vfmex::born().clear(); vfmex::born().shrink_to_fit();
  { std::string l; l.swap(vfmex::log()); g.log.swap(l); }
  // what is still alive apart from the results handed over
  long held=0; for(int k=0;k<2;k++) held+=(keep[k].s.capacity()>0)+(keep[k].d.capacity()>0); held+=g.log.capacity()>15; g.grew=g_live-before-held;
  for(int k=0;k<2;k++) g.dims[k]=keep[k].d;
  if(g.made[0]) g.v.assign(keep[0].s.begin(),keep[0].s.begin()+keep[0].bytes/8);
  if(g.made[1]){ const int*p=(const int*)keep[1].s.data(); g.inl.assign(p,p+keep[1].bytes/4); }
  return g;
}
static std::string ds(const std::vector<size_t>&d){ std::string s; for(size_t k=0;k<d.size();k++) s+=str("%s%zu",k?"x":"",d[k]); return s; }
static std::vector<size_t> norm(std::vector<size_t> d){ while(d.size()>2&&d.back()==1) d.pop_back(); return d; }
static bool bits(const std::vector<double>&a,const std::vector<double>&b){ return sameBits(a,b); }

struct Data { int fam; Arr d1,d2; std::shared_ptr<ap::AbsoluteAdapterBase> a; std::shared_ptr<rp::RelativeAdapterBase> r; std::shared_ptr<pc::PointCloudAdapterBase> c;
  bearingVectors_t f1,f2; points_t p1,p2; translations_t o; rotations_t I; VI c1,c2; Matrix3d R; Vector3d t; int n; };
static std::shared_ptr<Data> makeData(Rng&g,int fam,int n,double noise,double outl,bool rotOnly)
{
  std::shared_ptr<Data> d(new Data); d->fam=fam; d->n=n;
  if(fam<=1)
  { AbsOpt o; o.n=n; o.noise=noise; if(fam==1){ o.cams=n; } AbsScene s=makeAbs(g,o); for(auto&x:s.cr) x=Matrix3d::Identity(); if(fam==1) for(int k=0;k<n;k++){ Vector3d b=s.R.transpose()*(s.p[k]-s.t)-s.co[k]; b+=noise*b.norm()*g.nv(); s.f[k]=b/b.norm(); }
    for(int k=0;k<n;k++) if(g.p(outl)) s.f[k]=g.unit();
    d->f1=s.f; d->p1=s.p; d->R=s.R; d->t=s.t; d->o=s.co; d->I=s.cr; d->c1=s.cc; MatrixXd A(3,n),B(fam?6:3,n); for(int k=0;k<n;k++){ A.col(k)=s.p[k]; B.block(0,k,3,1)=s.f[k]; if(fam) B.block(3,k,3,1)=s.co[s.cc[k]]; } d->d1.num(A); d->d2.num(B);
    if(fam) d->a.reset(new ap::NoncentralAbsoluteAdapter(d->f1,d->c1,d->p1,d->o,d->I)); else d->a.reset(new ap::CentralAbsoluteAdapter(d->f1,d->p1)); }
  else if(fam<=3)
  { RelOpt o; o.n=0; o.cams=fam==3?2*n:0; if(rotOnly) o.tMax=0; RelScene s=makeRel(g,o); for(auto&x:s.cr) x=Matrix3d::Identity(); for(int k=0;k<n;k++) s.add(g.u(4,8)*g.unit(),fam==3?2*k:0,fam==3?2*k+1:0);
    for(int k=0;k<n;k++){ if(noise>0){ s.f1[k]+=noise*g.nv(); s.f1[k]/=s.f1[k].norm(); s.f2[k]+=noise*g.nv(); s.f2[k]/=s.f2[k].norm(); } if(g.p(outl)) s.f2[k]=g.unit(); }
    d->f1=s.f1; d->f2=s.f2; d->R=s.R; d->t=s.t; d->o=s.co; d->I=s.cr; d->c1=s.c1; d->c2=s.c2; int h=fam==3?6:3; MatrixXd A(h,n),B(h,n); for(int k=0;k<n;k++){ A.block(0,k,3,1)=s.f1[k]; B.block(0,k,3,1)=s.f2[k]; if(fam==3){ A.block(3,k,3,1)=s.co[s.c1[k]]; B.block(3,k,3,1)=s.co[s.c2[k]]; } } d->d1.num(A); d->d2.num(B);
    if(fam==3) d->r.reset(new rp::NoncentralRelativeAdapter(d->f1,d->f2,d->c1,d->c2,d->o,d->I)); else d->r.reset(new rp::CentralRelativeAdapter(d->f1,d->f2)); }
  else
  { d->R=g.rot(); d->t=g.box(3); MatrixXd A(3,n),B(3,n); for(int k=0;k<n;k++){ Vector3d x=g.box(5); d->p2.push_back(x); Vector3d y=d->R*x+d->t+noise*g.nv(); if(g.p(outl)) y=g.box(8); d->p1.push_back(y); A.col(k)=y; B.col(k)=x; } d->d1.num(A); d->d2.num(B); d->c.reset(new pc::PointCloudAdapter(d->p1,d->p2)); }
  return d;
}
static void one(Reporter&R,Rng&g,const M&m,int c)
{
  std::string name=m.name; bool rob=isRobust(name); int n=c%4==0?m.need+(rob?g.i(0,1):0):m.need+g.i(1,25); double noise=c%3==0?0:c%3==1?1e-3:3e-2, outl=c%5<2?0:c%5==2?0.1:0.3; if(!rob&&outl>0.1) outl=0.1;
  if(name=="sixpt"&&c%7<2) n=6; bool few=rob&&c%12==11&&name!="fivept_stewenius_ransac"; if(few) n=1; // too few for any sample: no model, no inliers
  bool ro=name.find("otationOnly")!=std::string::npos; auto D=makeData(g,m.fam,n,noise,outl,ro&&c%2); Data&d=*D;
  int form=c%7; // 0,1: no indices; 2: indices; 3..5 prior; 6 indices in a subset
  VI ix; bool useI=form>=2; if(useI){ ix=g.subset(n,!few&&(form==2||form==6)?g.i(m.need,n):n); if(form==6) std::sort(ix.begin(),ix.end()); }
  if(name=="fivept_kneip"&&useI) ix=g.subset(n,5);
  if(name=="sixpt"&&useI) ix=g.subset(n,6); // exactly six
  Arr meth,idx,pri; meth.text(name); if(useI){ MatrixXd I(1,ix.size()); for(size_t k=0;k<ix.size();k++) I(0,k)=ix[k]+1; idx.num(I); }
  bool pt=form==3||form==5,pr=form==4||form==5; Matrix3d Rp=d.R*g.rotMax(0.05); Vector3d tp=d.t+0.05*g.nv(); if(g.p(0.15)){ Rp=g.rot(); tp=g.box(3); }
  if(pt||pr){ MatrixXd P; if(pt&&pr){ P.resize(3,4); P<<Rp,tp; } else if(pt) P=tp; else P=Rp; pri.num(P); }
  if(d.a){ if(pt) d.a->sett(tp); if(pr) d.a->setR(Rp); } if(d.r){ if(pt) d.r->sett12(tp); if(pr) d.r->setR12(Rp); } if(d.c){ if(pt) d.c->sett12(tp); if(pr) d.c->setR12(Rp); }
  unsigned sd=(unsigned)g.next(); int nl=rob?1+(int)(c%3!=1):1; g_hold=true; g_now=(long)(sd%1000003)+1000;
  srand(sd); Want w=direct(name,d.a.get(),d.r.get(),d.c.get(),useI?&ix:0);
  std::vector<const mxArray*> in; in.push_back(meth.a); if(useI) in.push_back(idx.a); in.push_back(d.d1.a); in.push_back(d.d2.a); if(pt||pr) in.push_back(pri.a);
  srand(sd); Got o=callMex(nl,in); g_hold=false;
  R.ev(Reporter::h(Reporter::hs(name+str("%d",form)),g.next())); R.cov("call "+name); R.cov(str("form %d",form)); std::string k=name+(m.upnp?m.fam?":6":":3":"");
  std::string ctx=str("n=%d noise=%g outliers=%g form=%d indices=%s",n,noise,outl,form,iv(ix).c_str());
  if(!d.d1.same()||!d.d2.same()||(useI&&!idx.same())||((pt||pr)&&!pri.same())) R.fail("input:"+k,"%s: an input array was modified (%s)",name.c_str(),ctx.c_str());
  if(!w.ok){ if(o.made[0]||(o.log.empty()&&!o.threw)) R.fail("needs-indices:"+k,"%s without indices must be refused with a message",name.c_str()); return; }
  if(!o.made[0]||o.threw){ R.fail("result:"+k,"%s returned nothing: '%s' (%s)",name.c_str(),o.log.c_str(),ctx.c_str()); return; }
  if(o.cls[0]!=mxDOUBLE_CLASS||norm(o.dims[0])!=norm(w.dims)) R.fail("shape:"+k,"%s returned an array %s, the C++ interface gives %s (%s)",name.c_str(),ds(o.dims[0]).c_str(),ds(w.dims).c_str(),ctx.c_str());
  else if(!w.robust||w.found){ if(!bits(o.v,w.v)){ size_t b=0; while(b<w.v.size()&&(o.v[b]==w.v[b]||(o.v[b]!=o.v[b]&&w.v[b]!=w.v[b]))) b++; R.fail("value:"+k,"%s: element %zu is %.17g, the C++ interface gives %.17g (%s)",name.c_str(),b,o.v[b],w.v[b],ctx.c_str()); } }
  R.cov(w.robust?w.found?"robust run with a model":"robust run without a model":"direct result");
  if(nl==2)
  { if(!o.made[1]) R.fail("inliers:"+k,"%s: second output missing (%s)",name.c_str(),ctx.c_str());
    else { if(o.cls[1]!=mxINT32_CLASS||o.dims[1]!=std::vector<size_t>({1,w.inl.size()})) R.fail("inliers:"+k,"%s: inliers of shape %s, expected int32 1x%zu (%s)",name.c_str(),ds(o.dims[1]).c_str(),w.inl.size(),ctx.c_str()); else if(o.inl!=w.inl) R.fail("inliers:"+k,"%s: inliers %s, expected %s (%s)",name.c_str(),iv(o.inl).c_str(),iv(w.inl).c_str(),ctx.c_str()); R.cov("inlier lists"); R.cov("inliers compared",w.inl.size()); } }
  else if(o.made[1]) R.fail("inliers:"+k,"%s created a second output that was not asked for",name.c_str());
  if(o.grew>0){ // first call may fill caches: again
    g_hold=true; srand(sd); long e=0; for(int q=0;q<2;q++){ srand(sd); Got o2=callMex(nl,in); e=std::max(e,0L)+std::max(0L,o2.grew); if(o2.grew<=0){ e=0; break; } } g_hold=false; if(e>0) R.fail("leak:"+k,"%s leaves %ld heap blocks behind in every call (%s)",name.c_str(),o.grew,ctx.c_str()); }
  // wrong number of outputs
  if(!rob&&c%6==0){ Got x=callMex(2,in); if(x.made[0]||x.made[1]||(x.log.empty()&&!x.threw)) R.fail("two-outputs:"+k,"%s with two outputs must be refused with a message",name.c_str()); }
}
// calls the documentation excludes: a message and no result
static void bad(Reporter&R,Rng&g,const M&m,int c)
{
  std::string name=m.name; int n=m.need+3; auto D=makeData(g,m.fam,n,0,0,false); Data&d=*D; Arr meth,idx,pri,x1,x2; meth.text(name); MatrixXd I(1,n); for(int k=0;k<n;k++) I(0,k)=k+1; idx.num(I); MatrixXd P(3,4); P<<d.R,d.t; pri.num(P);
  std::vector<const mxArray*> in={meth.a,idx.a,d.d1.a,d.d2.a,pri.a}; int nl=1; std::string what; int kind=c%14; int h1=d.d1.a->dims[0],h2=d.d2.a->dims[0];
  auto M3=[&](int r,int q){ MatrixXd z(r,q); for(int a=0;a<r;a++) for(int b=0;b<q;b++) z(a,b)=g.n(); return z; };
  switch(kind)
  {
    case 0: what="two arguments"; in.resize(2); break;
    case 1: what="six arguments"; in.push_back(pri.a); break;
    case 2: { what="unknown method"; std::string z=name; int q=g.i(4); if(q==0) z+="x"; else if(q==1) z[g.i((int)z.size())]^=1; else if(q==2) z.resize(z.size()-1); else z=" "+z; bool known=false; for(auto&y:METHODS) if(z==y.name) known=true; if(known) return; meth.text(z); in[0]=meth.a; break; }
    case 3: { what="method of two rows"; mxArray*x=vfmex::make(mxCHAR_CLASS,{2,(mwSize)name.size()}); x->text=name+name; meth.set(x); in[0]=meth.a; break; }
    case 4: { what="data of 4 or 5 rows"; x1.num(M3(4+g.i(2),n)); in[2+g.i(2)]=x1.a; break; }
    case 5: what="different numbers of columns"; x1.num(M3(h1,n+1)); in[2]=x1.a; break;
    case 6: { what="more indices than correspondences"; MatrixXd J(1,n+1); for(int k=0;k<=n;k++) J(0,k)=1; idx.num(J); in[1]=idx.a; break; }
    case 7: { what="column of indices"; MatrixXd J(n,1); for(int k=0;k<n;k++) J(k,0)=k+1; idx.num(J); in[1]=idx.a; break; }
    case 8: what="prior 4x4, 3x2 or 3x5"; { int q=g.i(3); x1.num(q==0?M3(4,4):q==1?M3(3,2):M3(3,5)); in[4]=x1.a; } break;
    case 9: what="data1 of the other kind"; if(m.upnp) return; x1.num(M3(h1==3?6:3,n)); in[2]=x1.a; break;
    case 10: what="data2 of the other kind"; if(m.upnp) return; x1.num(M3(h2==3?6:3,n)); in[3]=x1.a; break;
    case 11: { what="no correspondences"; x1.num(MatrixXd(h1,0)); x2.num(MatrixXd(h2,0)); in[2]=x1.a; in[3]=x2.a; idx.num(MatrixXd(1,0)); in[1]=idx.a; break; }
    case 12: what="three outputs"; nl=3; break;
    case 13: { what="three-dimensional data"; mxArray*x=vfmex::make(mxDOUBLE_CLASS,{(mwSize)h1,(mwSize)n,2}); x1.set(x); in[2]=x1.a; break; }
  }
  int forms=kind==0||kind==1||kind==6||kind==7||kind==8?1:3; // the same mistake in the short signatures
  for(int f=0;f<forms;f++)
  {
    std::vector<const mxArray*> z=in; if(f==1) z.pop_back(); if(f==2){ z.pop_back(); z.erase(z.begin()+1); }
    Got o=callMex(nl,z); R.ev(Reporter::h(Reporter::hs(name+what),f)); R.cov("refused: "+what);
    if(o.made[0]||o.made[1]||(o.log.empty()&&!o.threw)) R.fail("refuse:"+what,"%s with %s (%zu arguments): %s",name.c_str(),what.c_str(),z.size(),o.made[0]||o.made[1]?"computed something":"no message");
    if(o.grew>0){ Got o2=callMex(nl,z); if(o2.grew>0) R.fail("leak:refuse:"+what,"%s with %s leaves %ld heap blocks behind",name.c_str(),what.c_str(),o2.grew); }
  }
}
void monitor(Reporter&R)
{
  for(auto&m:METHODS)
  { std::string s=m.name; if(m.upnp) s+=m.fam?":6":":3"; bool slow=s.find("sixpt")!=std::string::npos;
    R.each(s,R.N(slow?isRobust(m.name)?14:28:84,slow?140:1400),[&](Rng&g,int c){ one(R,g,m,c); }); }
  for(auto&m:METHODS){ std::string s=std::string("bad/")+m.name; if(m.upnp&&m.fam) s+=":6"; R.each(s,R.N(14,70),[&](Rng&g,int c){ bad(R,g,m,c); }); }
}
