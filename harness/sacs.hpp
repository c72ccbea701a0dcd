// Uniform access to every shipped sample consensus problem together with an
// independent oracle of its distances and of its true model.
#ifndef VERIF_SACS_HPP_
#define VERIF_SACS_HPP_
#include "refine.hpp"
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac/MultiRansac.hpp>

namespace vf
{
namespace ap=opengv::absolute_pose; namespace rp=opengv::relative_pose; namespace pc=opengv::point_cloud; namespace sac=opengv::sac; namespace sp=opengv::sac_problems;
struct Mod { EIGEN_MAKE_ALIGNED_OPERATOR_NEW Matrix3d R; Vector3d t; Mod():R(Matrix3d::Identity()),t(Vector3d::Zero()){} Mod(const Matrix3d&a,const Vector3d&b):R(a),t(b){} };
inline std::string ms(const Mod&m){ return "R="+vs(m.R)+" t="+vs(m.t.transpose()); }
typedef std::vector<int> VI;
inline void toModel(const Mod&m,transformation_t&o){ o.block<3,3>(0,0)=m.R; o.col(3)=m.t; }
inline void toModel(const Mod&m,rotation_t&o){ o=m.R; }
inline void toModel(const Mod&m,opengv::eigensolverOutput_t&o){ o.rotation=m.R; o.translation=m.t; o.eigenvalues.setZero(); o.eigenvectors.setZero(); }
inline Mod fromModel(const transformation_t&o){ return Mod(o.block<3,3>(0,0),o.col(3)); }
inline Mod fromModel(const rotation_t&o){ return Mod(o,Vector3d::Zero()); }
inline Mod fromModel(const opengv::eigensolverOutput_t&o){ return Mod(o.rotation,o.translation); }

// global correspondence k <-> (frame,local); a single-frame problem has one frame
struct ISac
{
  std::string name; int minimal; std::vector<VI> frame; // frame[f][l]=k
  std::vector<std::pair<int,int> > at;                  // at[k]=(frame,local)
  virtual ~ISac(){}
  virtual VI sizes()=0;
  virtual std::vector<double> distances(const Mod&,const VI&ix)=0;   // ix of one frame order for multi problems: grouped by frame
  virtual std::vector<double> all(const Mod&)=0;
  virtual VI select(const Mod&,double thr)=0;
  virtual int count(const Mod&,double thr)=0;
  virtual void setIndices(const VI&)=0;
  virtual bool hypothesis(const VI&sample,Mod&)=0;
  virtual Mod refine(const VI&,const Mod&)=0;
  virtual void burn(int n)=0;
  virtual bool robust(int kind,double thr,int maxit,double p,Mod&,VI&inl,VI&sample,int&it)=0; // kind 0 ransac, 1 lmeds
  virtual bool multi() const=0;
  virtual VI indices()=0; virtual VI draw()=0; // data in use and a sample, as global indices grouped by frame
  // groups global indices by frame (order of frames, order within frame kept)
  VI group(const VI&ix) const { std::vector<VI> g(frame.size()); for(int k:ix) g[at[k].first].push_back(k); VI r; for(auto&x:g) r.insert(r.end(),x.begin(),x.end()); return r; }
};
template<class P> struct Single: ISac
{
  std::shared_ptr<P> p; typedef typename P::model_t M;
  Single(const std::string&n,P*q,int N){ name=n; p.reset(q); frame.push_back(iota(N)); for(int k=0;k<N;k++) at.push_back(std::make_pair(0,k)); }
  VI sizes(){ return VI(1,p->getSampleSize()); }
  std::vector<double> distances(const Mod&m,const VI&ix){ M x; toModel(m,x); std::vector<double> s; p->getSelectedDistancesToModel(x,ix,s); return s; }
  std::vector<double> all(const Mod&m){ M x; toModel(m,x); std::vector<double> s; p->getDistancesToModel(x,s); return s; }
  VI select(const Mod&m,double t){ M x; toModel(m,x); VI r; r.push_back(-7); p->selectWithinDistance(x,t,r); return r; }
  int count(const Mod&m,double t){ M x; toModel(m,x); return p->countWithinDistance(x,t); }
  void setIndices(const VI&i){ p->setIndices(i); }
  bool hypothesis(const VI&s,Mod&m){ M x; toModel(m,x); bool r=p->computeModelCoefficients(s,x); if(r) m=fromModel(x); return r; }
  Mod refine(const VI&i,const Mod&m){ M x,y; toModel(m,x); toModel(Mod(),y); p->optimizeModelCoefficients(i,x,y); return fromModel(y); }
  void burn(int n){ for(int k=0;k<n;k++) p->rnd(); }
  bool robust(int kind,double thr,int maxit,double pr,Mod&m,VI&inl,VI&sample,int&it)
  { bool r; if(kind==0){ sac::Ransac<P> s(maxit,thr,pr); s.sac_model_=p; r=s.computeModel(0); m=fromModel(s.model_coefficients_); inl=s.inliers_; sample=s.model_; it=s.iterations_; } else { sac::Lmeds<P> s(maxit,thr,pr); s.sac_model_=p; r=s.computeModel(0); m=fromModel(s.model_coefficients_); inl=s.inliers_; sample=s.model_; it=s.iterations_; } return r; }
  bool multi() const { return false; }
  VI indices(){ return *p->getIndices(); }
  VI draw(){ int it=0; VI s; p->getSamples(it,s); return s; }
};
template<class P> struct Multi: ISac
{
  std::shared_ptr<P> p; typedef typename P::model_t M;
  Multi(const std::string&n,P*q,const std::vector<VI>&fr){ name=n; p.reset(q); frame=fr; int N=0; for(auto&f:fr) N+=f.size(); at.resize(N); for(size_t f=0;f<fr.size();f++) for(size_t l=0;l<fr[f].size();l++) at[fr[f][l]]=std::make_pair((int)f,(int)l); }
  VI sizes(){ return p->getSampleSizes(); }
  std::vector<VI> split(const VI&ix) const { std::vector<VI> g(frame.size()); for(int k:ix) g[at[k].first].push_back(at[k].second); return g; }
  std::vector<double> distances(const Mod&m,const VI&ix){ M x; toModel(m,x); std::vector<std::vector<double> > s(frame.size()); p->getSelectedDistancesToModel(x,split(ix),s); std::vector<double> r; for(auto&v:s) r.insert(r.end(),v.begin(),v.end()); return r; }
  std::vector<double> all(const Mod&m){ M x; toModel(m,x); std::vector<std::vector<double> > s(frame.size()); p->getDistancesToModel(x,s); std::vector<double> r; for(auto&v:s) r.insert(r.end(),v.begin(),v.end()); return r; }
  VI back(const std::vector<VI>&v) const { VI r; if(v.size()>frame.size()) return VI(1,-1); for(size_t f=0;f<v.size();f++) for(int l:v[f]) r.push_back(l>=0&&l<(int)frame[f].size()?frame[f][l]:-1); return r; }
  VI select(const Mod&m,double t){ M x; toModel(m,x); std::vector<VI> r(1,VI(1,-7)); p->selectWithinDistance(x,t,r); return back(r); }
  int count(const Mod&m,double t){ M x; toModel(m,x); return p->countWithinDistance(x,t); }
  void setIndices(const VI&i){ p->setIndices(split(i)); }
  bool hypothesis(const VI&s,Mod&m){ M x; toModel(m,x); bool r=p->computeModelCoefficients(split(s),x); if(r) m=fromModel(x); return r; }
  Mod refine(const VI&i,const Mod&m){ M x,y; toModel(m,x); toModel(Mod(),y); p->optimizeModelCoefficients(split(i),x,y); return fromModel(y); }
  void burn(int n){ for(int k=0;k<n;k++) p->rnd(); }
  bool robust(int,double thr,int maxit,double pr,Mod&m,VI&inl,VI&sample,int&it){ sac::MultiRansac<P> s(maxit,thr,pr); s.sac_model_=p; bool r=s.computeModel(0); m=fromModel(s.model_coefficients_); inl=back(s.inliers_); sample=back(s.model_); it=s.iterations_; return r; }
  bool multi() const { return true; }
  VI indices(){ return back(*p->getIndices()); }
  VI draw(){ int it=0; std::vector<VI> s; p->getSamples(it,s); return back(s); }
};

// the data of one estimation problem; owns everything the adapters refer to
struct SacData
{
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  AbsScene a; RelScene r; points_t p1,p2; Mod truth; double scale; char kind; // 'a','r','o' (rotation only),'p'
  int n; bool dir; // translation (of the camera) defined up to scale
  std::shared_ptr<ap::AbsoluteAdapterBase> aa; std::shared_ptr<rp::RelativeAdapterBase> ra; std::shared_ptr<pc::PointCloudAdapter> pa; std::shared_ptr<ISac> s;
  std::vector<std::shared_ptr<bearingVectors_t> > mf1,mf2; std::vector<std::shared_ptr<points_t> > mp; std::vector<VI> fr;
  std::vector<double> w; // weights of the correspondences
  Mod prior; // pose prior needed by the problem
  double dist(int k,const Mod&m) const
  { if(kind=='a') return absDist(a,k,m.R,m.t); if(kind=='r') return relDist(r,k,m.R,m.t); if(kind=='o') return 1-r.f1[k].dot(m.R*r.f2[k]); return (p1[k]-(m.R*p2[k]+m.t)).norm(); }
  // well-conditioned for scoring: rays not (nearly) parallel
  bool clear(int k,const Mod&m) const
  { if(kind!='r') return true; const Matrix3d&A=r.cr[r.c1[k]],&B=r.cr[r.c2[k]]; Vector3d f=r.f1[k],h=A.transpose()*m.R*B*r.f2[k]; Vector3d t=A.transpose()*(m.t-r.co[r.c1[k]]+m.R*r.co[r.c2[k]]); if(f.cross(h).norm()<0.01||t.norm()<1e-6*scale) return false; Vector3d p=midpoint(r.f1[k],r.f2[k],A.transpose()*m.R*B,t); return p.norm()>0.02*t.norm()&&(p-t).norm()>0.02*t.norm(); }
  Vector3d camT(const Mod&m) const { if(r.cr.empty()) return m.t; int a=r.c1[0],b=r.c2[0]; return r.cr[a].transpose()*(m.t-r.co[a]+m.R*r.co[b]); }
  double err(const Mod&m) const
  { if(!fin(m.R)||!fin(m.t)) return INFINITY; double e=(m.R-truth.R).norm(); if(kind=='o') return e; if(dir){ Vector3d a=camT(m),b=camT(truth); return e+(a/a.norm()-b/b.norm()).norm(); } return e+(m.t-truth.t).norm()/scale; }
};
inline const std::vector<std::string>& sacNames()
{ static const std::vector<std::string> v={"abs-twopt","abs-kneip","abs-gao","abs-epnp","abs-gp3p","abs-kneip-shifted","abs-gao-shifted","abs-epnp-shifted","abs-multi","abs-multi-central",
  "rel-stewenius","rel-nister","rel-seven","rel-eight","rel-sixpt","rel-ge","rel-seventeen","rel-ascentral","rel-ascentral-cross","rel-multi-sixpt","rel-multi-ge","rel-multi-seventeen","rel-multi-ascentral",
  "rotonly","transonly","eigensolver","eigensolver-weighted","cloud"}; return v; }
// ctor: 0 chosen by the scene, 1 constructor without indices, 2 constructor with indices; idx: data given to the latter
struct SacOpt { int n; std::string fl; double noise; int cams; int ctor; VI idx; SacOpt():n(30),fl("std"),noise(0),cams(4),ctor(0){} };
// builds scene and problem; bearing noise is added before the adapters see the data
inline std::shared_ptr<SacData> makeSac(Rng&g,const std::string&nm,const SacOpt&o,std::function<void(SacData&)> corrupt=std::function<void(SacData&)>())
{
  std::shared_ptr<SacData> D(new SacData); SacData&d=*D; d.n=o.n; d.dir=false; d.scale=1; int n=o.n; auto is=[&](const char*p){ return nm.compare(0,strlen(p),p)==0; };
  // which constructor: that with an index list has to behave like the other one when all data are listed
  auto byIndex=[&]{ if(!o.idx.empty()||o.ctor) return o.ctor==2||!o.idx.empty(); double x=d.truth.R(0,1)*1e7; return ((long long)floor(x)+n)%2==0; };
  VI ixs=o.idx.empty()?iota(n):o.idx; auto perFrame=[&]{ std::vector<VI> r(d.fr.size()); std::vector<std::pair<int,int> > at(n); for(size_t f=0;f<d.fr.size();f++) for(size_t l=0;l<d.fr[f].size();l++) at[d.fr[f][l]]=std::make_pair((int)f,(int)l); if(o.idx.empty()){ for(size_t f=0;f<d.fr.size();f++) r[f]=iota(d.fr[f].size()); } else for(int k:ixs) r[at[k].first].push_back(at[k].second); return r; };
  auto nz=[&](bearingVectors_t&v){ if(o.noise>0) for(auto&f:v){ f+=o.noise*g.nv(); f/=f.norm(); } };
  // frames of multi problems: contiguous blocks of global indices
  int C=o.cams; bool one=nm.find("-shifted")!=std::string::npos||nm=="abs-multi-central"||is("rel-ascentral")||nm=="rel-multi-ascentral"; if(one) C=1;
  auto frames=[&](const VI&cc,int F){ d.fr.assign(F,VI()); for(int k=0;k<n;k++) d.fr[cc[k]].push_back(k); };
  if(is("abs"))
  {
    d.kind='a'; bool central=nm=="abs-twopt"||nm=="abs-kneip"||nm=="abs-gao"||nm=="abs-epnp"; AbsCase c; do c=makeAbsFlavour(g,o.fl,n,central?0:C,0.5); while((nm=="abs-gp3p"||nm=="abs-multi")&&M_PI-angleOf(c.s.R)<0.05); 
    d.a=c.s; d.scale=c.scale; nz(d.a.f); d.truth=Mod(d.a.R,d.a.t); if(corrupt) corrupt(d);
    AbsScene&s=d.a; typedef sp::absolute_pose::AbsolutePoseSacProblem P; typedef sp::absolute_pose::MultiNoncentralAbsolutePoseSacProblem MP;
    if(is("abs-multi"))
    { frames(s.cc,C); for(int f=0;f<C;f++){ std::shared_ptr<bearingVectors_t> b(new bearingVectors_t); std::shared_ptr<points_t> q(new points_t); for(int k:d.fr[f]){ b->push_back(s.f[k]); q->push_back(s.p[k]); } d.mf1.push_back(b); d.mp.push_back(q); }
      ap::NoncentralAbsoluteMultiAdapter*A=new ap::NoncentralAbsoluteMultiAdapter(d.mf1,d.mp,s.co,s.cr); d.aa.reset(A); d.s.reset(new Multi<MP>(nm,byIndex()?new MP(*A,perFrame(),nm=="abs-multi-central"):new MP(*A,nm=="abs-multi-central"),d.fr)); return D; }
    if(central) d.aa.reset(new ap::CentralAbsoluteAdapter(s.f,s.p)); else d.aa.reset(new ap::NoncentralAbsoluteAdapter(s.f,s.cc,s.p,s.co,s.cr));
    if(nm=="abs-twopt") d.aa->setR(d.truth.R); else if(g.p(0.5)){ d.aa->setR(g.rot()); d.aa->sett(g.box(2)); }
    P::algorithm_t alg=nm=="abs-twopt"?P::TWOPT:is("abs-gao")?P::GAO:is("abs-epnp")?P::EPNP:nm=="abs-gp3p"?P::GP3P:P::KNEIP; d.s.reset(new Single<P>(nm,byIndex()?new P(*d.aa,alg,ixs,false):new P(*d.aa,alg,false),n)); return D;
  }
  if(is("rel")||is("eigensolver")||nm=="transonly")
  {
    d.kind='r'; bool multi=is("rel-multi"),rig=multi||nm=="rel-sixpt"||nm=="rel-ge"||nm=="rel-seventeen"||is("rel-ascentral"); bool cross=nm=="rel-ascentral-cross"; if(cross) C=2; d.dir=!rig||one; RelCase c; int guard=0; bool bad;
    do { c=makeRelFlavour(g,o.fl,n,rig?C:0,0.5,multi||(one&&!cross)); if(cross) for(int k=0;k<n;k++){ RelScene&s=c.s; Vector3d X=s.p[k]; s.c1[k]=0; s.c2[k]=1; s.f1[k]=(s.cr[0].transpose()*(X-s.co[0])).normalized(); s.f2[k]=(s.cr[1].transpose()*(s.R.transpose()*(X-s.t)-s.co[1])).normalized(); } bad=c.s.t.norm()<1e-9||(multi&&!one&&o.fl!="norot"&&angleOf(c.s.R)<0.05); for(int k=0;k<n&&!bad;k++){ RelScene&s=c.s; if(vecAngle(s.cr[s.c1[k]]*s.f1[k],s.R*s.cr[s.c2[k]]*s.f2[k])<0.004) bad=true; } } while(bad&&guard++<200);
    if(nm=="rel-ge"){ } d.r=c.s; d.scale=c.scale; RelScene&s=d.r; nz(s.f1); nz(s.f2); d.truth=Mod(s.R,s.t); 
    if(one) d.truth.t=s.t; if(corrupt) corrupt(d);
    typedef sp::relative_pose::CentralRelativePoseSacProblem P; typedef sp::relative_pose::NoncentralRelativePoseSacProblem Q; typedef sp::relative_pose::MultiNoncentralRelativePoseSacProblem MQ;
    if(multi)
    { frames(s.c1,C); for(int f=0;f<C;f++){ std::shared_ptr<bearingVectors_t> a(new bearingVectors_t),b(new bearingVectors_t); for(int k:d.fr[f]){ a->push_back(s.f1[k]); b->push_back(s.f2[k]); } d.mf1.push_back(a); d.mf2.push_back(b); }
      rp::NoncentralRelativeMultiAdapter*A=new rp::NoncentralRelativeMultiAdapter(d.mf1,d.mf2,s.co,s.cr); d.ra.reset(A); MQ::algorithm_t alg=nm=="rel-multi-ge"?MQ::GE:nm=="rel-multi-seventeen"?MQ::SEVENTEENPT:MQ::SIXPT; d.s.reset(new Multi<MQ>(nm,byIndex()?new MQ(*A,alg,perFrame(),nm=="rel-multi-ascentral",false):new MQ(*A,alg,nm=="rel-multi-ascentral",false),d.fr)); return D; }
    if(rig) d.ra.reset(new rp::NoncentralRelativeAdapter(s.f1,s.f2,s.c1,s.c2,s.co,s.cr)); else if(nm=="eigensolver-weighted"){ if((int)d.w.size()!=n){ d.w.resize(n); for(auto&x:d.w) x=g.u(0.2,2); } d.ra.reset(new rp::CentralRelativeWeightingAdapter(s.f1,s.f2,d.w)); } else d.ra.reset(new rp::CentralRelativeAdapter(s.f1,s.f2));
    if(nm=="transonly") d.ra->setR12(d.truth.R); else if(is("eigensolver")) d.ra->setR12(d.truth.R*g.rotMax(0.01)); else if(g.p(0.5)){ d.ra->setR12(g.rot()); d.ra->sett12(g.box(2)); }
    if(nm=="transonly") d.s.reset(new Single<sp::relative_pose::TranslationOnlySacProblem>(nm,byIndex()?new sp::relative_pose::TranslationOnlySacProblem(*d.ra,ixs,false):new sp::relative_pose::TranslationOnlySacProblem(*d.ra,false),n));
    else if(is("eigensolver")) { int ssz=nm=="eigensolver"?10:g.i(8,18); d.s.reset(new Single<sp::relative_pose::EigensolverSacProblem>(nm,byIndex()?new sp::relative_pose::EigensolverSacProblem(*d.ra,ssz,ixs,false):new sp::relative_pose::EigensolverSacProblem(*d.ra,ssz,false),n)); }
    else if(rig){ Q::algorithm_t alg=nm=="rel-ge"?Q::GE:nm=="rel-seventeen"?Q::SEVENTEENPT:Q::SIXPT; d.s.reset(new Single<Q>(nm,byIndex()?new Q(*d.ra,alg,ixs,is("rel-ascentral"),false):new Q(*d.ra,alg,is("rel-ascentral"),false),n)); }
    else { P::algorithm_t alg=nm=="rel-nister"?P::NISTER:nm=="rel-seven"?P::SEVENPT:nm=="rel-eight"?P::EIGHTPT:P::STEWENIUS; d.s.reset(new Single<P>(nm,byIndex()?new P(*d.ra,alg,ixs,false):new P(*d.ra,alg,false),n)); }
    return D;
  }
  if(nm=="rotonly")
  { d.kind='o'; RelScene&s=d.r; s.t.setZero(); s.R=o.fl=="norot"?Matrix3d(Matrix3d::Identity()):o.fl=="smallrot"?g.rotMax(1e-3):o.fl=="rotaxis"?axisRot(g):g.rot(); s.co.push_back(Vector3d::Zero()); s.cr.push_back(Matrix3d::Identity()); for(int k=0;k<n;k++) s.add(g.u(1,9)*g.unit(),0,0);
    nz(s.f1); nz(s.f2); d.truth=Mod(s.R,Vector3d::Zero()); if(corrupt) corrupt(d); d.ra.reset(new rp::CentralRelativeAdapter(s.f1,s.f2)); if(g.p(0.5)){ d.ra->setR12(g.rot()); d.ra->sett12(g.box(2)); } d.s.reset(new Single<sp::relative_pose::RotationOnlySacProblem>(nm,byIndex()?new sp::relative_pose::RotationOnlySacProblem(*d.ra,ixs,false):new sp::relative_pose::RotationOnlySacProblem(*d.ra,false),n)); return D; }
  d.kind='p'; double k=o.fl=="tiny"?1e-3:o.fl=="huge"?1e3:1; d.scale=k; Matrix3d R=o.fl=="norot"?Matrix3d(Matrix3d::Identity()):o.fl=="smallrot"?g.rotMax(1e-3):o.fl=="rotaxis"?axisRot(g):g.rot(); Vector3d t=k*g.box(3); for(int q=0;q<n;q++){ Vector3d x=k*g.box(5); d.p2.push_back(x+k*o.noise*g.nv()); d.p1.push_back(R*x+t+k*o.noise*g.nv()); }
  d.truth=Mod(R,t); if(corrupt) corrupt(d); d.pa.reset(new pc::PointCloudAdapter(d.p1,d.p2)); d.s.reset(new Single<sp::point_cloud::PointCloudSacProblem>(nm,byIndex()?new sp::point_cloud::PointCloudSacProblem(*d.pa,ixs,false):new sp::point_cloud::PointCloudSacProblem(*d.pa,false),n)); return D;
}
} // namespace vf
#endif
