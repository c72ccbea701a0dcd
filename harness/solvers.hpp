// Every solver entry point of the library behind one uniform interface.
#ifndef VERIF_SOLVERS_HPP_
#define VERIF_SOLVERS_HPP_
#include "refine.hpp"
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/triangulation/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
namespace vf
{
namespace ap=opengv::absolute_pose; namespace rp=opengv::relative_pose; namespace pc=opengv::point_cloud; namespace tri=opengv::triangulation;
typedef std::vector<int> VI;
// kind: P pose 3x4, R rotation, E essential matrix (3x6: real | imaginary part), T vector
struct Sol
{
  char kind; std::vector<MatrixXd> v; std::vector<double> raw;
  Sol():kind('?'){}
  void put(const MatrixXd&m){ v.push_back(m); for(int c=0;c<m.cols();c++) for(int r=0;r<m.rows();r++) raw.push_back(m(r,c)); }
  void extra(const MatrixXd&m){ for(int c=0;c<m.cols();c++) for(int r=0;r<m.rows();r++) raw.push_back(m(r,c)); }
  template<class C> static Sol many(char k,const C&c){ Sol s; s.kind=k; s.raw.push_back((double)c.size()); for(auto&x:c) s.put(MatrixXd(x)); return s; }
  static Sol one(char k,const MatrixXd&m){ Sol s; s.kind=k; s.put(m); return s; }
  static Sol cplx(const opengv::complexEssentials_t&c){ Sol s; s.kind='E'; s.raw.push_back((double)c.size()); for(auto&x:c){ MatrixXd m(3,6); m<<x.real(),x.imag(); s.put(m); } return s; }
  bool finite() const { for(double x:raw) if(!std::isfinite(x)) return false; return true; }
};
// bit for bit, except that any NaN equals any NaN
inline bool sameBits(const std::vector<double>&a,const std::vector<double>&b)
{ if(a.size()!=b.size()) return false; for(size_t k=0;k<a.size();k++) if(memcmp(&a[k],&b[k],8)&&!(a[k]!=a[k]&&b[k]!=b[k])) return false; return true; }
inline std::string rs(const Sol&s){ std::string r="{"; for(size_t k=0;k<s.raw.size()&&k<40;k++) r+=str("%s%.9g",k?" ":"",s.raw[k]); return r+(s.raw.size()>40?" ...}":"}"); }

template<class A> struct Solver
{
  std::string name; int need; bool exact;  // correspondences needed; uses exactly the first `need` ones
  int rig; // 0 central data only, 1 both, 2 multi-camera data needed
  int prior; // 0 ignores the pose prior, 1 uses the rotation, 2 uses rotation and translation
  std::function<Sol(A&,const VI*)> run;
};
typedef Solver<ap::AbsoluteAdapterBase> AbsSolver; typedef Solver<rp::RelativeAdapterBase> RelSolver; typedef Solver<pc::PointCloudAdapterBase> PcSolver;
inline const std::vector<AbsSolver>& absSolvers()
{
  typedef ap::AbsoluteAdapterBase A; static std::vector<AbsSolver> v; if(!v.empty()) return v;
  auto add=[&](const char*n,int need,bool ex,int rig,int prior,std::function<Sol(A&,const VI*)> f){ AbsSolver s; s.name=n; s.need=need; s.exact=ex; s.rig=rig; s.prior=prior; s.run=f; v.push_back(s); };
  add("p2p",2,true,0,1,[](A&a,const VI*i){ return Sol::one('T',i?ap::p2p(a,*i):ap::p2p(a)); });
  add("p3p_kneip",3,true,0,0,[](A&a,const VI*i){ return Sol::many('P',i?ap::p3p_kneip(a,*i):ap::p3p_kneip(a)); });
  add("p3p_gao",3,true,0,0,[](A&a,const VI*i){ return Sol::many('P',i?ap::p3p_gao(a,*i):ap::p3p_gao(a)); });
  add("gp3p",3,true,2,0,[](A&a,const VI*i){ return Sol::many('P',i?ap::gp3p(a,*i):ap::gp3p(a)); });
  add("epnp",6,false,0,0,[](A&a,const VI*i){ return Sol::one('P',i?ap::epnp(a,*i):ap::epnp(a)); });
  add("gpnp",6,false,2,0,[](A&a,const VI*i){ return Sol::one('P',i?ap::gpnp(a,*i):ap::gpnp(a)); });
  add("upnp",4,false,1,0,[](A&a,const VI*i){ return Sol::many('P',i?ap::upnp(a,*i):ap::upnp(a)); });
  add("abs_nonlin",6,false,1,2,[](A&a,const VI*i){ return Sol::one('P',i?ap::optimize_nonlinear(a,*i):ap::optimize_nonlinear(a)); });
  return v;
}
inline const std::vector<RelSolver>& relSolvers()
{
  typedef rp::RelativeAdapterBase A; static std::vector<RelSolver> v; if(!v.empty()) return v;
  auto add=[&](const char*n,int need,bool ex,int rig,int prior,std::function<Sol(A&,const VI*)> f){ RelSolver s; s.name=n; s.need=need; s.exact=ex; s.rig=rig; s.prior=prior; s.run=f; v.push_back(s); };
  add("twopt",2,true,0,0,[](A&a,const VI*i){ return Sol::one('T',i?rp::twopt(a,false,*i):rp::twopt(a,false)); });
  add("twopt_unrotate",2,true,0,1,[](A&a,const VI*i){ return Sol::one('T',i?rp::twopt(a,true,*i):rp::twopt(a,true)); });
  add("twopt_rotationOnly",2,true,0,0,[](A&a,const VI*i){ return Sol::one('R',i?rp::twopt_rotationOnly(a,*i):rp::twopt_rotationOnly(a)); });
  add("rotationOnly",3,false,0,0,[](A&a,const VI*i){ return Sol::one('R',i?rp::rotationOnly(a,*i):rp::rotationOnly(a)); });
  add("fivept_stewenius",5,false,0,0,[](A&a,const VI*i){ return Sol::cplx(i?rp::fivept_stewenius(a,*i):rp::fivept_stewenius(a)); });
  add("fivept_nister",5,false,0,0,[](A&a,const VI*i){ return Sol::many('E',i?rp::fivept_nister(a,*i):rp::fivept_nister(a)); });
  add("fivept_kneip",5,true,0,0,[](A&a,const VI*i){ VI d=iota(5); return Sol::many('R',rp::fivept_kneip(a,i?*i:d)); });
  add("sevenpt",7,false,0,0,[](A&a,const VI*i){ return Sol::many('E',i?rp::sevenpt(a,*i):rp::sevenpt(a)); });
  add("eightpt",8,false,0,0,[](A&a,const VI*i){ return Sol::one('E',i?rp::eightpt(a,*i):rp::eightpt(a)); });
  for(int w=0;w<2;w++)
  {
    add(w?"eigensolver_weighted":"eigensolver",6,false,0,1,[w](A&a,const VI*i){ opengv::eigensolverOutput_t o; o.rotation=a.getR12(); o.translation.setZero(); o.eigenvalues.setZero(); o.eigenvectors.setZero(); Sol s=Sol::one('R',i?rp::eigensolver(a,*i,o,w):rp::eigensolver(a,o,w)); s.extra(o.rotation); s.extra(o.translation); s.extra(o.eigenvalues); s.extra(o.eigenvectors); return s; });
    add(w?"eigensolver_short_weighted":"eigensolver_short",6,false,0,1,[w](A&a,const VI*i){ return Sol::one('R',i?rp::eigensolver(a,*i,(bool)w):rp::eigensolver(a,(bool)w)); });
    add(w?"ge_weighted":"ge",7,false,2,1,[w](A&a,const VI*i){ opengv::geOutput_t o; o.rotation=a.getR12(); o.translation.setZero(); o.eigenvalues.setZero(); o.eigenvectors.setZero(); Sol s=Sol::one('R',i?rp::ge(a,*i,o,w):rp::ge(a,o,w)); s.extra(o.rotation); s.extra(o.translation); s.extra(o.eigenvalues); s.extra(o.eigenvectors); return s; });
    add(w?"ge_short_weighted":"ge_short",7,false,2,1,[w](A&a,const VI*i){ return Sol::one('R',i?rp::ge(a,*i,(bool)w):rp::ge(a,(bool)w)); });
  }
  add("sixpt",6,true,2,0,[](A&a,const VI*i){ return Sol::many('R',i?rp::sixpt(a,*i):rp::sixpt(a)); });
  add("seventeenpt",17,false,2,0,[](A&a,const VI*i){ return Sol::one('P',i?rp::seventeenpt(a,*i):rp::seventeenpt(a)); });
  add("rel_nonlin",6,false,1,2,[](A&a,const VI*i){ return Sol::one('P',i?rp::optimize_nonlinear(a,*i):rp::optimize_nonlinear(a)); });
  return v;
}
inline const std::vector<PcSolver>& pcSolvers()
{
  typedef pc::PointCloudAdapterBase A; static std::vector<PcSolver> v; if(!v.empty()) return v;
  auto add=[&](const char*n,int need,int prior,std::function<Sol(A&,const VI*)> f){ PcSolver s; s.name=n; s.need=need; s.exact=false; s.rig=0; s.prior=prior; s.run=f; v.push_back(s); };
  add("threept_arun",3,0,[](A&a,const VI*i){ return Sol::one('P',i?pc::threept_arun(a,*i):pc::threept_arun(a)); });
  add("pc_nonlin",3,2,[](A&a,const VI*i){ return Sol::one('P',i?pc::optimize_nonlinear(a,*i):pc::optimize_nonlinear(a)); });
  return v;
}
// containers with the lifetime of the adapter
struct AbsData
{
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  AbsScene s; std::shared_ptr<ap::AbsoluteAdapterBase> a; std::vector<std::shared_ptr<bearingVectors_t> > mf; std::vector<std::shared_ptr<points_t> > mp; VI order; // order[k] = position of correspondence k in the adapter
};
// how: 0 central, 1 noncentral, 2 multi-frame
inline std::shared_ptr<AbsData> absAdapter(const AbsScene&s,int how)
{
  std::shared_ptr<AbsData> d(new AbsData); d->s=s; AbsScene&z=d->s; d->order=iota(z.n());
  if(how==0) d->a.reset(new ap::CentralAbsoluteAdapter(z.f,z.p)); else if(how==1) d->a.reset(new ap::NoncentralAbsoluteAdapter(z.f,z.cc,z.p,z.co,z.cr));
  else { int C=(int)z.co.size(); for(int c=0;c<C;c++){ d->mf.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); d->mp.push_back(std::shared_ptr<points_t>(new points_t)); } std::vector<int> cnt(C,0),start(C,0); for(int k=0;k<z.n();k++) cnt[z.cc[k]]++; for(int c=1;c<C;c++) start[c]=start[c-1]+cnt[c-1]; for(int k=0;k<z.n();k++){ int c=z.cc[k]; d->order[k]=start[c]+(int)d->mf[c]->size(); d->mf[c]->push_back(z.f[k]); d->mp[c]->push_back(z.p[k]); } d->a.reset(new ap::NoncentralAbsoluteMultiAdapter(d->mf,d->mp,z.co,z.cr)); }
  return d;
}
struct RelData
{
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  RelScene s; std::shared_ptr<rp::RelativeAdapterBase> a; std::vector<std::shared_ptr<bearingVectors_t> > m1,m2; VI order; std::vector<double> w;
};
// how: 0 central, 1 noncentral, 2 multi-frame noncentral (cameras c1==c2), 3 central with weights, 4 multi-pair central adapter (one pair of bearings each)
inline std::shared_ptr<RelData> relAdapter(const RelScene&s,int how,const std::vector<double>&w=std::vector<double>())
{
  std::shared_ptr<RelData> d(new RelData); d->s=s; RelScene&z=d->s; d->order=iota(z.n()); d->w=w;
  if(how==0) d->a.reset(new rp::CentralRelativeAdapter(z.f1,z.f2)); else if(how==1) d->a.reset(new rp::NoncentralRelativeAdapter(z.f1,z.f2,z.c1,z.c2,z.co,z.cr)); else if(how==3) d->a.reset(new rp::CentralRelativeWeightingAdapter(z.f1,z.f2,d->w));
  else { int C=how==4?3:(int)z.co.size(); for(int c=0;c<C;c++){ d->m1.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); d->m2.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); } std::vector<int> cnt(C,0),start(C,0); auto cam=[&](int k){ return how==4?k*C/z.n():z.c1[k]; }; for(int k=0;k<z.n();k++) cnt[cam(k)]++; for(int c=1;c<C;c++) start[c]=start[c-1]+cnt[c-1]; for(int k=0;k<z.n();k++){ int c=cam(k); d->order[k]=start[c]+(int)d->m1[c]->size(); d->m1[c]->push_back(z.f1[k]); d->m2[c]->push_back(z.f2[k]); } if(how==4) d->a.reset(new rp::CentralRelativeMultiAdapter(d->m1,d->m2)); else d->a.reset(new rp::NoncentralRelativeMultiAdapter(d->m1,d->m2,z.co,z.cr)); }
  return d;
}
inline void prior(ap::AbsoluteAdapterBase&a,const Matrix3d&R,const Vector3d&t){ a.setR(R); a.sett(t); }
inline void prior(rp::RelativeAdapterBase&a,const Matrix3d&R,const Vector3d&t){ a.setR12(R); a.sett12(t); }
inline void prior(pc::PointCloudAdapterBase&a,const Matrix3d&R,const Vector3d&t){ a.setR12(R); a.sett12(t); }
template<class S> inline S subScene(const S&s,const VI&ix);
template<> inline AbsScene subScene(const AbsScene&s,const VI&ix){ AbsScene r=s; r.f.clear(); r.p.clear(); r.cc.clear(); for(int k:ix){ r.f.push_back(s.f[k]); r.p.push_back(s.p[k]); r.cc.push_back(s.cc[k]); } return r; }
template<> inline RelScene subScene(const RelScene&s,const VI&ix){ RelScene r=s; r.f1.clear(); r.f2.clear(); r.c1.clear(); r.c2.clear(); r.p.clear(); for(int k:ix){ r.f1.push_back(s.f1[k]); r.f2.push_back(s.f2[k]); r.c1.push_back(s.c1[k]); r.c2.push_back(s.c2[k]); if(k<(int)s.p.size()) r.p.push_back(s.p[k]); } return r; }
} // namespace vf
#endif
