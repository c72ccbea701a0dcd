// A "world" is one data set with every library call that can be made on it,
// each as a closure returning everything the call outputs.  Shared by the
// monitors of purity, memory safety, concurrency, termination and
// initialisation.
#ifndef VERIF_WORLDS_HPP_
#define VERIF_WORLDS_HPP_
#include "solvers.hpp"
#include "sacs.hpp"
#include <opengv/math/roots.hpp>
#include <opengv/math/Sturm.hpp>
#include <opengv/math/arun.hpp>
#include <opengv/math/cayley.hpp>
#include <opengv/math/quaternion.hpp>
#include <opengv/math/gauss_jordan.hpp>
// The library draws restarts and perturbations from rand(): one deterministic
// generator per thread, so that runs can be compared.
static thread_local uint64_t vf_rand_state=1;
extern "C" int rand(void) noexcept { vf_rand_state=vf_rand_state*6364136223846793005ull+1442695040888963407ull; return (int)((vf_rand_state>>33)&0x7fffffff); }
extern "C" void srand(unsigned s) noexcept { vf_rand_state=s*0x9E3779B97F4A7C15ull+1; }
namespace vf
{
typedef std::vector<double> Raw;
struct Call { std::string name; std::function<Raw()> f; bool det; };
struct World
{
  std::vector<std::shared_ptr<void> > keep; std::vector<Call> calls; std::function<Raw()> snap; bool shareable; World():shareable(false){}
  void add(const std::string&n,std::function<Raw()> f,bool det=true){ Call c; c.name=n; c.f=f; c.det=det; calls.push_back(c); }
};
inline Raw call(const Call&c){ srand(7); return c.f(); }
template<class V> inline void put(Raw&r,const V&v){ for(auto&m:v) for(int c=0;c<m.cols();c++) for(int k=0;k<m.rows();k++) r.push_back(m(k,c)); r.push_back((double)v.size()); }
inline void put(Raw&r,const VI&v){ for(int x:v) r.push_back(x); r.push_back((double)v.size()); }
inline void putM(Raw&r,const MatrixXd&m){ for(int c=0;c<m.cols();c++) for(int k=0;k<m.rows();k++) r.push_back(m(k,c)); }
inline void dump(Raw&r,const AbsScene&s){ put(r,s.f); put(r,s.p); put(r,s.co); put(r,s.cr); put(r,s.cc); }
inline void dump(Raw&r,const RelScene&s){ put(r,s.f1); put(r,s.f2); put(r,s.co); put(r,s.cr); put(r,s.c1); put(r,s.c2); }
// --- hostile data: well-formed containers, hostile contents
inline const std::vector<std::string>& hostiles()
{ static const std::vector<std::string> v={"none","dup","pairs","line","plane","same","opposite","random","axes","zero","huge","tiny","denormal","nan","inf","center","allnan"}; return v; }
// inputs are finite and their squares neither overflow nor underflow
inline bool sane(const std::string&h){ return h!="nan"&&h!="inf"&&h!="allnan"&&h!="huge"&&h!="denormal"; }
inline double odd(Rng&g,const std::string&h){ return h=="inf"?(g.p(0.5)?INFINITY:-INFINITY):NAN; }
inline Vector3d axisVec(Rng&g){ Vector3d v(0,0,0); v[g.i(3)]=g.p(0.5)?1:-1; return v; }
inline void spoilPoints(Rng&g,const std::string&h,points_t&p,const Vector3d&c)
{
  int n=(int)p.size(); if(!n) return; Vector3d u=g.unit(),b=p[0],w=g.unit();
  if(h=="dup") for(auto&x:p) x=b; if(h=="pairs") for(int k=1;k<n;k+=2) p[k]=p[k-1]; if(h=="line") for(auto&x:p) x=b+g.u(-3,3)*u; if(h=="plane") for(auto&x:p) x-=w.dot(x-b)*w;
  if(h=="random") for(auto&x:p) x=g.box(5); if(h=="axes") for(auto&x:p) x=(double)g.i(1,4)*axisVec(g); if(h=="zero") for(auto&x:p) x.setZero(); if(h=="huge") for(auto&x:p) x*=1e150; if(h=="tiny") for(auto&x:p) x*=1e-150; if(h=="denormal") for(auto&x:p) x=x*1e-160*1e-150;
  if(h=="nan"||h=="inf") p[g.i(n)][g.i(3)]=odd(g,h); if(h=="allnan") for(auto&x:p) x.setConstant(NAN); if(h=="center") { p[g.i(n)]=c; if(g.p(0.3)) for(auto&x:p) x=c; }
}
inline void spoilBearings(Rng&g,const std::string&h,bearingVectors_t&f)
{
  int n=(int)f.size(); if(!n) return; Vector3d b=f[0],w=g.unit(),u=g.unit();
  if(h=="dup"||h=="same") for(auto&x:f) x=b; if(h=="pairs") for(int k=1;k<n;k+=2) f[k]=f[k-1]; if(h=="plane"||h=="line") for(auto&x:f){ x-=w.dot(x)*w; x/=x.norm(); }
  if(h=="random") for(auto&x:f) x=g.unit(); if(h=="axes") for(auto&x:f) x=axisVec(g); if(h=="opposite") for(int k=1;k<n;k++) f[k]=k%2?Vector3d(-b):b; if(h=="zero"&&g.p(0.5)) for(auto&x:f) x.setZero(); if((h=="nan"||h=="inf")&&g.p(0.5)) f[g.i(n)][g.i(3)]=odd(g,h); if(h=="allnan") for(auto&x:f) x.setConstant(NAN);
}
inline void spoil(Rng&g,const std::string&h,AbsScene&s)
{ if(h=="none") return; int w=g.i(3); if(w!=1||h=="huge"||h=="tiny"||h=="denormal"||h=="center") spoilPoints(g,h,s.p,s.t); if(w!=0) spoilBearings(g,h,s.f); if((h=="dup"||h=="zero")&&g.p(0.3)) for(auto&o:s.co) o.setZero(); if(h=="same"&&g.p(0.5)) for(size_t k=0;k<s.co.size();k++){ s.co[k]=s.co[0]; s.cr[k]=s.cr[0]; } if(h=="huge"&&g.p(0.3)) for(auto&o:s.co) o*=1e150; if(h=="nan"&&g.p(0.2)) s.co[0][1]=NAN; }
inline void spoil(Rng&g,const std::string&h,RelScene&s)
{
  if(h=="none") return; int w=g.i(4),n=s.n(); if(h=="same"){ if(w<2) s.f2=s.f1; else for(int k=0;k<n;k++) s.f2[k]=s.R.transpose()*s.f1[k]; if(w==3) for(auto&o:s.co) o.setZero(); return; } if(h=="opposite"&&w<2){ for(int k=0;k<n;k++) s.f2[k]=-s.f1[k]; return; }
  if(h=="center"){ s.f1[0]=s.t.normalized(); s.f2[0]=s.R.transpose()*s.f1[0]; if(w==0) for(int k=0;k<n;k++){ s.f1[k]=s.t.normalized(); s.f2[k]=s.R.transpose()*s.f1[k]; } return; }
  if(w!=0) spoilBearings(g,h,s.f1); if(w!=1) spoilBearings(g,h,s.f2); if(h=="huge") for(auto&o:s.co) o*=1e150; if(h=="tiny") for(auto&o:s.co) o*=1e-150; if(h=="denormal") for(auto&o:s.co) o*=1e-310; if(h=="zero"||h=="dup") for(auto&o:s.co) o.setZero(); if(h=="pairs") for(size_t k=1;k<s.co.size();k++){ s.co[k]=s.co[0]; s.cr[k]=s.cr[0]; } if((h=="nan"||h=="inf")&&g.p(0.2)) s.co[0][1]=odd(g,h);
}
inline VI pick(Rng&g,int n,int need,bool exact){ return g.subset(n,exact?need:g.i(std::min(n,need),n)); }
// big: long correspondence lists (a few worlds)
struct WOpt { std::string fl,hostile; bool minimal,slow,big; WOpt():fl("std"),hostile("none"),minimal(false),slow(true),big(false){} };
inline bool slowSolver(const std::string&n){ return n=="sixpt"; }
inline std::shared_ptr<World> absWorld(Rng&g,const WOpt&o)
{
  std::shared_ptr<World> W(new World); W->shareable=true; int n=o.big?g.i(60,260):o.minimal?g.i(6,7):g.i(6,25),cams=g.i(1,5); AbsCase q=makeAbsFlavour(g,o.fl,n,cams); spoil(g,o.hostile,q.s); AbsScene z=q.s; Matrix3d P=z.R*g.rotMax(0.3); Vector3d t=z.t+0.2*q.scale*g.nv(); if(o.hostile=="zero"||o.hostile=="axes"){ P.setIdentity(); t.setZero(); } if(o.hostile=="allnan"&&g.p(0.5)) t.setConstant(NAN);
  std::vector<std::shared_ptr<AbsData> > ad; for(int how=0;how<3;how++) ad.push_back(absAdapter(z,how));
  for(int how=0;how<3;how++)
  {
    auto d=ad[how]; prior(*d->a,P,t); W->keep.push_back(d); std::string hn=str("/%d",how);
    for(auto&s:absSolvers())
    {
      const AbsSolver*sp=&s; int nn=std::max(s.need,4); if(o.big&&s.prior==2&&how!=1) continue; if(s.name=="epnp"||s.name=="gpnp") nn=6; std::shared_ptr<VI> ix(new VI(o.minimal?pick(g,n,nn,true):pick(g,n,nn,s.exact))); if(s.exact) ix->resize(s.need); W->keep.push_back(ix);
      W->add(s.name+hn,[sp,d]{ return sp->run(*d->a,0).raw; }); W->add(s.name+hn+"/indices",[sp,d,ix]{ return sp->run(*d->a,ix.get()).raw; });
    }
    W->add("getters"+hn,[d,n]{ Raw r; for(int k=0;k<n;k++){ putM(r,d->a->getBearingVector(k)); putM(r,d->a->getPoint(k)); putM(r,d->a->getCamOffset(k)); putM(r,d->a->getCamRotation(k)); r.push_back(d->a->getWeight(k)); } r.push_back((double)d->a->getNumberCorrespondences()); return r; });
  }
  W->snap=[ad]{ Raw r; for(auto&d:ad){ dump(r,d->s); for(auto&m:d->mf) put(r,*m); for(auto&m:d->mp) put(r,*m); putM(r,d->a->getR()); putM(r,d->a->gett()); } return r; }; return W;
}
inline std::shared_ptr<World> relWorld(Rng&g,const WOpt&o)
{
  std::shared_ptr<World> W(new World); W->shareable=true; int n=o.big?g.i(60,140):o.minimal?g.i(17,18):g.i(17,40),cams=g.i(1,6); bool samecam=g.p(0.5); RelCase q=makeRelFlavour(g,o.fl,n,cams,0.5,samecam); spoil(g,o.hostile,q.s); RelScene z=q.s; Matrix3d P=z.R*g.rotMax(0.1); Vector3d t=z.t+0.1*q.scale*g.nv(); if(o.hostile=="zero"||o.hostile=="axes"){ P.setIdentity(); if(g.p(0.5)) t.setZero(); } if(o.hostile=="allnan"&&g.p(0.5)) t.setConstant(NAN);
  std::vector<double> w(n); for(auto&x:w) x=g.u(0.5,2); if(o.hostile=="zero"&&g.p(0.3)) for(auto&x:w) x=0; std::vector<std::shared_ptr<RelData> > ad; RelScene zs=z; zs.c2=zs.c1; // the multi-frame adapter pairs equal cameras
  for(int how=0;how<5;how++) ad.push_back(relAdapter(how==2?zs:z,how,how==3?w:std::vector<double>()));
  for(int how=0;how<5;how++)
  {
    auto d=ad[how]; prior(*d->a,P,t); W->keep.push_back(d); std::string hn=str("/%d",how);
    for(auto&s:relSolvers())
    {
      const RelSolver*sp=&s; if(o.big&&((s.prior==2&&how!=1)||slowSolver(s.name)||s.name.find("ge")==0)) continue; if(slowSolver(s.name)&&(!o.slow||how!=1)) continue; std::shared_ptr<VI> ix(new VI(o.minimal?pick(g,n,s.need,true):pick(g,n,s.need,s.exact))); W->keep.push_back(ix);
      if(!slowSolver(s.name)) W->add(s.name+hn,[sp,d]{ return sp->run(*d->a,0).raw; }); W->add(s.name+hn+"/indices",[sp,d,ix]{ return sp->run(*d->a,ix.get()).raw; });
    }
    for(int h=0;h<2;h++) W->add(std::string(h?"triangulate2":"triangulate")+hn,[d,n,h]{ Raw r; for(int k=0;k<n;k++) putM(r,h?tri::triangulate2(*d->a,k):tri::triangulate(*d->a,k)); return r; });
    W->add("getters"+hn,[d,n]{ Raw r; for(int k=0;k<n;k++){ putM(r,d->a->getBearingVector1(k)); putM(r,d->a->getBearingVector2(k)); putM(r,d->a->getCamOffset1(k)); putM(r,d->a->getCamOffset2(k)); putM(r,d->a->getCamRotation1(k)); putM(r,d->a->getCamRotation2(k)); r.push_back(d->a->getWeight(k)); } r.push_back((double)d->a->getNumberCorrespondences()); return r; });
  }
  W->snap=[ad]{ Raw r; for(auto&d:ad){ dump(r,d->s); for(auto&m:d->m1) put(r,*m); for(auto&m:d->m2) put(r,*m); r.insert(r.end(),d->w.begin(),d->w.end()); putM(r,d->a->getR12()); putM(r,d->a->gett12()); } return r; }; return W;
}
inline std::shared_ptr<World> pcWorld(Rng&g,const WOpt&o)
{
  std::shared_ptr<World> W(new World); W->shareable=true; int n=o.big?g.i(60,400):o.minimal?3:g.i(3,30); Matrix3d Z=g.rotMax(2); Vector3d t=g.box(3); std::shared_ptr<points_t> a(new points_t(n)),b(new points_t(n)); for(int k=0;k<n;k++){ (*b)[k]=g.box(4); (*a)[k]=Z*(*b)[k]+t; }
  if(o.hostile=="same") *a=*b; else if(o.hostile=="opposite") for(int k=0;k<n;k++) (*a)[k]=-(*b)[k]; else { int w=g.i(3); uint64_t keep=g.next(); if(w!=1){ Rng h(keep); spoilPoints(h,o.hostile,*a,t); } if(w!=0){ Rng h(keep); spoilPoints(h,o.hostile,*b,Vector3d(0,0,0)); } }
  std::shared_ptr<pc::PointCloudAdapter> A(new pc::PointCloudAdapter(*a,*b)); prior(*A,Z*g.rotMax(0.1),t+0.1*g.nv()); W->keep={a,b,A};
  for(auto&s:pcSolvers()){ const PcSolver*sp=&s; std::shared_ptr<VI> ix(new VI(pick(g,n,3,false))); W->keep.push_back(ix); W->add(s.name,[sp,A]{ return sp->run(*A,0).raw; }); W->add(s.name+"/indices",[sp,A,ix]{ return sp->run(*A,ix.get()).raw; }); }
  W->add("getters/pc",[A,n]{ Raw r; for(int k=0;k<n;k++){ putM(r,A->getPoint1(k)); putM(r,A->getPoint2(k)); r.push_back(A->getWeight(k)); } return r; });
  W->snap=[a,b,A]{ Raw r; put(r,*a); put(r,*b); putM(r,A->getR12()); putM(r,A->gett12()); return r; }; return W;
}
inline void putMod(Raw&r,const Mod&m,bool t=true){ putM(r,m.R); if(t) putM(r,m.t); }
// robust estimation draws from the random stream of the problem object: every robust call builds its own problem
inline std::shared_ptr<World> sacWorld(Rng&g,const WOpt&o,const std::string&nm)
{
  std::shared_ptr<World> W(new World); bool multi=nm.find("multi")!=std::string::npos,sv=nm.find("seventeen")!=std::string::npos,six=nm.find("sixpt")!=std::string::npos; SacOpt so; so.fl=o.fl; so.cams=g.i(1,5); if(sv||six) so.cams=g.i(3,5); so.n=o.minimal?std::max(20,multi?so.cams*17:17):std::max(30,multi?so.cams*20:30)+g.i(20); if(o.big&&!six) so.n=multi?so.cams*g.i(60,80):g.i(100,250); so.noise=g.p(0.5)?0:1e-3; uint64_t seed=g.next(); std::string hs=o.hostile; double outl=g.u(0,0.4);
  auto make=[=]{ Rng h(seed); return makeSac(h,nm,so,[=](SacData&d){ Rng k(seed,5); for(int j=0;j<d.n;j++) if(k.p(outl)){ if(d.kind=='a') d.a.f[j]=k.unit(); else if(d.kind=='p') d.p1[j]=k.box(5); else d.r.f2[j]=k.unit(); } if(hs=="none") return; if(d.kind=='a') spoil(k,hs,d.a); else if(d.kind=='p'){ if(k.p(0.7)) spoilPoints(k,hs,d.p1,Vector3d(0,0,0)); if(k.p(0.7)) spoilPoints(k,hs,d.p2,Vector3d(0,0,0)); } else spoil(k,hs,d.r); }); };
  std::shared_ptr<SacData> D=make(); SacData*d=D.get(); ISac*s=d->s.get(); W->keep.push_back(D); int n=d->n; Mod truth=d->truth,off(truth.R*g.rotMax(0.2),truth.t+0.1*d->scale*g.nv()); if(hs=="zero") off=Mod(); std::shared_ptr<VI> ix(new VI(multi?s->group(g.subset(n,g.i(1,n))):g.subset(n,g.i(1,n)))),rf(new VI(multi?s->group(g.subset(n,g.i(std::min(n,20),n))):g.subset(n,g.i(std::min(n,20),n)))); bool rot=d->kind!='o'; double thr=d->kind=='p'?0.01:1e-4;
  for(int h=0;h<2;h++){ Mod m=h?off:truth; std::string q=h?"/off":"/truth"; W->add(nm+":all"+q,[s,m]{ return s->all(m); }); W->add(nm+":some"+q,[s,m,ix]{ return s->distances(m,*ix); }); W->add(nm+":select"+q,[s,m,thr]{ Raw r; put(r,s->select(m,thr)); return r; }); W->add(nm+":count"+q,[s,m,thr]{ return Raw(1,s->count(m,thr)); }); }
  int H=six?(o.slow?1:0):3; VI sz=s->sizes(); for(int k=0;k<H;k++)
  { std::shared_ptr<VI> sm(new VI); if(!multi){ int z=s->sizes()[0]; *sm=g.subset(n,z); } else for(size_t f=0;f<s->frame.size();f++){ VI fr=s->frame[f]; g.shuffle(fr); for(int j=0;j<sz[f]&&j<(int)fr.size();j++) sm->push_back(fr[j]); } W->keep.push_back(sm);
    W->add(nm+":hypothesis",[s,sm,rot]{ Mod m; Raw r; bool ok=s->hypothesis(*sm,m); r.push_back(ok); if(ok) putMod(r,m,rot); return r; }); }
  { int lo=multi?6:nm.find("eig")!=std::string::npos?5:3; std::shared_ptr<VI> few(new VI(multi?s->group(g.subset(n,g.i(lo,lo+4))):g.subset(n,g.i(lo,lo+4)))); W->add(nm+":refine-few",[s,few,off,rot]{ Raw r; putMod(r,s->refine(*few,off),rot); return r; }); }
  for(int h=0;h<2;h++){ Mod m=h?off:truth; W->add(nm+":refine",[s,rf,m,rot]{ Raw r; putMod(r,s->refine(*rf,m),rot); return r; }); }
  if(!six||o.slow) for(int kind=0;kind<(multi?1:2);kind++){ int it=six?1:nm.find("-ge")!=std::string::npos?5:20; double th=thr*pow(10,g.u(-3,2)); W->add(nm+(kind?":lmeds":":ransac"),[make,kind,th,it,rot]{ auto E=make(); Mod m; VI inl,smp; int n=0; Raw r; bool ok=E->s->robust(kind,th,it,0.99,m,inl,smp,n); r.push_back(ok); r.push_back(n); if(ok){ putMod(r,m,rot); put(r,inl); put(r,smp); } return r; },nm.compare(0,9,"abs-multi")!=0); }
  W->snap=[d]{ Raw r; dump(r,d->a); dump(r,d->r); put(r,d->p1); put(r,d->p2); for(auto&m:d->mf1) put(r,*m); for(auto&m:d->mf2) put(r,*m); for(auto&m:d->mp) put(r,*m); if(d->aa){ putM(r,d->aa->getR()); putM(r,d->aa->gett()); } if(d->ra){ putM(r,d->ra->getR12()); putM(r,d->ra->gett12()); } if(d->pa){ putM(r,d->pa->getR12()); putM(r,d->pa->gett12()); } return r; }; return W;
}
inline std::shared_ptr<World> mathWorld(Rng&g,const WOpt&o)
{
  using namespace opengv::math; std::shared_ptr<World> W(new World); W->shareable=true; auto coef=[&]{ const std::string&h=o.hostile; double x=g.u(-3,3); if(h=="axes") return (double)g.i(-2,2); if(h=="zero") return g.p(0.6)?0.0:x; if(h=="huge") return x*1e150; if(h=="tiny") return x*1e-150; if(h=="denormal") return x*1e-310; if(h=="nan"||h=="inf") return g.p(0.15)?odd(g,h):x; if(h=="allnan") return (double)NAN; if(h=="random") return x*pow(10,g.u(-12,12)); return x; };
  for(int rep=0;rep<6;rep++)
  {
    for(int deg=1;deg<=4+rep*2;deg++)
    { VectorXd c(deg+1); for(int k=0;k<=deg;k++) c[k]=coef(); if(o.hostile=="dup"||o.hostile=="pairs"||o.hostile=="same"){ VectorXd p=VectorXd::Zero(1); p[0]=1; double r0=g.i(-3,3); for(int k=0;k<deg;k++){ double r=o.hostile=="pairs"&&k%2==0?(r0=g.u(-2,2)):r0; VectorXd q=VectorXd::Zero(p.size()+1); q.head(p.size())+=p; q.tail(p.size())-=r*p; p=q; } c=p; }
      std::vector<double> v(c.data(),c.data()+c.size());
      if(deg==3) W->add("o3_roots",[v]{ return o3_roots(v); }); if(deg==4){ W->add("o4_roots",[v]{ return o4_roots(v); }); W->add("o4_rootsM",[c]{ return o4_roots(MatrixXd(c)); }); }
      W->add("sturm",[c]{ Raw r; Sturm s(c.transpose()); for(double x:s.findRoots()) r.push_back(x); r.push_back(-7); return r; }); W->add("sturm2",[v]{ Raw r; Sturm s(v); std::vector<double> z; s.findRoots2(z); for(double x:z) r.push_back(x); r.push_back((double)s.evaluateChain(0.5)); return r; });
    }
    Vector3d c(coef(),coef(),coef()); W->add("cayley",[c]{ Raw r; rotation_t R=cayley2rot(c); putM(r,R); putM(r,cayley2rot_reduced(c)); putM(r,rot2cayley(R)); return r; });
    Eigen::Vector4d q(coef(),coef(),coef(),coef()); Matrix3d M; for(int k=0;k<9;k++) M(k/3,k%3)=coef(); rotation_t G=g.rot(); W->add("quaternion",[q,G]{ Raw r; putM(r,quaternion2rot(q)); putM(r,rot2quaternion(G)); return r; }); MatrixXd A=M; W->add("arun",[A]{ Raw r; putM(r,arun(A)); return r; });
    points_t a(5),b(5); for(auto&x:a) x=Vector3d(coef(),coef(),coef()); for(auto&x:b) x=Vector3d(coef(),coef(),coef()); W->add("arun_complete",[a,b]{ Raw r; putM(r,arun_complete(a,b)); return r; });
    std::shared_ptr<std::vector<std::vector<double>*> > J(new std::vector<std::vector<double>*>); int rows=g.i(2,8),cols=rows+g.i(1,6); std::vector<std::vector<double> > m(rows,std::vector<double>(cols)); for(auto&x:m) for(auto&y:x) y=coef(); W->add("gauss_jordan",[m]{ std::vector<std::vector<double> > k=m; std::vector<std::vector<double>*> p; for(auto&x:k) p.push_back(&x); gauss_jordan(p); Raw r; for(auto&x:k) r.insert(r.end(),x.begin(),x.end()); return r; });
  }
  W->snap=[]{ return Raw(); }; return W;
}
inline const std::vector<std::string>& worldNames(){ static std::vector<std::string> v; if(v.empty()){ v={"abs","rel","pc","math"}; for(auto&n:sacNames()) v.push_back(n); } return v; }
inline std::shared_ptr<World> makeWorld(Rng&g,const std::string&w,const WOpt&o){ srand(11); return w=="abs"?absWorld(g,o):w=="rel"?relWorld(g,o):w=="pc"?pcWorld(g,o):w=="math"?mathWorld(g,o):sacWorld(g,o,w); }
inline std::string firstDiff(const Raw&a,const Raw&b){ if(a.size()!=b.size()) return str("%zu instead of %zu output values",b.size(),a.size()); for(size_t k=0;k<a.size();k++) if(memcmp(&a[k],&b[k],8)&&!(a[k]!=a[k]&&b[k]!=b[k])) return str("value %zu of %zu: %.17g instead of %.17g",k,a.size(),b[k],a[k]); return ""; }
} // namespace vf
#endif
