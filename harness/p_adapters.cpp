// P13  adapters hand the user's data to the algorithms unchanged; the serialized
// index of the multi adapters is a bijection that preserves camera and order
#include "common.hpp"
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/absolute_pose/MACentralAbsolute.hpp>
#include <opengv/absolute_pose/MANoncentralAbsolute.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/MACentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelativeMulti.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/point_cloud/MAPointCloud.hpp>
using namespace vf; using namespace opengv; namespace ap=opengv::absolute_pose; namespace rp=opengv::relative_pose; namespace pc=opengv::point_cloud;

template<class A,class B> static bool eq(const A&a,const B&b){ return memcmp(a.data(),b.data(),sizeof(double)*a.size())==0; }
static Matrix3d anyM(Rng&g){ Matrix3d m; for(int k=0;k<9;k++) m.data()[k]=g.n(); return g.p(0.7)?g.rot():m; }
// arbitrary doubles: the adapters must not normalise or otherwise touch them
static Vector3d anyV(Rng&g){ Vector3d v=g.nv()*pow(10,g.u(-3,3)); if(g.p(0.05)) v[g.i(3)]=0; if(g.p(0.02)) v[g.i(3)]=-0.0; if(g.p(0.02)) v[g.i(3)]=1e300; return v; }

struct AbsRef { bearingVectors_t f; points_t p; std::vector<Vector3d,Eigen::aligned_allocator<Vector3d> > o; std::vector<Matrix3d,Eigen::aligned_allocator<Matrix3d> > r; };
static void cmpAbs(Reporter&R,const char*nm,ap::AbsoluteAdapterBase&A,const AbsRef&x,Rng&g,const Vector3d*t,const Matrix3d*r)
{
  R.cov(std::string("adapter ")+nm); size_t n=x.f.size();
  if(A.getNumberCorrespondences()!=n){ R.fail(str("%s:count",nm),"%zu correspondences, %zu given",A.getNumberCorrespondences(),n); return; }
  std::vector<int> ord=g.subset((int)n,(int)n);   // any access order
  for(int i: ord)
  {
    R.ev(Reporter::hs(nm)+i,x.f[i][0]+x.p[i][1]);
    if(!eq(A.getBearingVector(i),x.f[i])) R.fail(str("%s:bearing",nm),"bearing %d is %s, given %s",i,vs(A.getBearingVector(i)).c_str(),vs(x.f[i]).c_str());
    if(!eq(A.getPoint(i),x.p[i])) R.fail(str("%s:point",nm),"point %d is %s, given %s",i,vs(A.getPoint(i)).c_str(),vs(x.p[i]).c_str());
    if(!eq(A.getCamOffset(i),x.o[i])) R.fail(str("%s:offset",nm),"camera offset of %d is %s, given %s",i,vs(A.getCamOffset(i)).c_str(),vs(x.o[i]).c_str());
    if(!eq(A.getCamRotation(i),x.r[i])) R.fail(str("%s:camrotation",nm),"camera rotation of %d is %s, given %s",i,vs(A.getCamRotation(i)).c_str(),vs(x.r[i]).c_str());
    if(A.getWeight(i)!=1.0) R.fail(str("%s:weight",nm),"weight of %d is %g",i,A.getWeight(i));
  }
  if(!eq(A.gett(),t?*t:Vector3d(Vector3d::Zero()))) R.fail(str("%s:prior_t",nm),"position prior %s",vs(A.gett()).c_str());
  if(!eq(A.getR(),r?*r:Matrix3d(Matrix3d::Identity()))) R.fail(str("%s:prior_R",nm),"orientation prior %s",vs(A.getR()).c_str());
  Vector3d nt=anyV(g); Matrix3d nr=anyM(g); A.sett(nt); if(r?!eq(A.getR(),*r):!eq(A.getR(),Matrix3d(Matrix3d::Identity()))) R.fail(str("%s:set",nm),"setting t changed R"); A.setR(nr);
  if(!eq(A.gett(),nt)||!eq(A.getR(),nr)) R.fail(str("%s:set",nm),"prior not stored");
}
struct RelRef { bearingVectors_t f1,f2; std::vector<double> w; std::vector<Vector3d,Eigen::aligned_allocator<Vector3d> > o1,o2; std::vector<Matrix3d,Eigen::aligned_allocator<Matrix3d> > r1,r2; };
static void cmpRel(Reporter&R,const char*nm,rp::RelativeAdapterBase&A,const RelRef&x,Rng&g,const Vector3d*t,const Matrix3d*r)
{
  R.cov(std::string("adapter ")+nm); size_t n=x.f1.size();
  if(A.getNumberCorrespondences()!=n){ R.fail(str("%s:count",nm),"%zu correspondences, %zu given",A.getNumberCorrespondences(),n); return; }
  std::vector<int> ord=g.subset((int)n,(int)n);
  for(int i: ord)
  {
    R.ev(Reporter::hs(nm)+i,x.f1[i][0]+x.f2[i][1]);
    if(!eq(A.getBearingVector1(i),x.f1[i])) R.fail(str("%s:bearing1",nm),"bearing 1 of %d is %s, given %s",i,vs(A.getBearingVector1(i)).c_str(),vs(x.f1[i]).c_str());
    if(!eq(A.getBearingVector2(i),x.f2[i])) R.fail(str("%s:bearing2",nm),"bearing 2 of %d is %s, given %s",i,vs(A.getBearingVector2(i)).c_str(),vs(x.f2[i]).c_str());
    if(!eq(A.getCamOffset1(i),x.o1[i])) R.fail(str("%s:offset1",nm),"offset 1 of %d is %s, given %s",i,vs(A.getCamOffset1(i)).c_str(),vs(x.o1[i]).c_str());
    if(!eq(A.getCamOffset2(i),x.o2[i])) R.fail(str("%s:offset2",nm),"offset 2 of %d is %s, given %s",i,vs(A.getCamOffset2(i)).c_str(),vs(x.o2[i]).c_str());
    if(!eq(A.getCamRotation1(i),x.r1[i])) R.fail(str("%s:camrotation1",nm),"camera rotation 1 of %d",i);
    if(!eq(A.getCamRotation2(i),x.r2[i])) R.fail(str("%s:camrotation2",nm),"camera rotation 2 of %d",i);
    if(A.getWeight(i)!=x.w[i]) R.fail(str("%s:weight",nm),"weight of %d is %g, given %g",i,A.getWeight(i),x.w[i]);
  }
  if(!eq(A.gett12(),t?*t:Vector3d(Vector3d::Zero()))) R.fail(str("%s:prior_t",nm),"translation prior %s",vs(A.gett12()).c_str());
  if(!eq(A.getR12(),r?*r:Matrix3d(Matrix3d::Identity()))) R.fail(str("%s:prior_R",nm),"rotation prior %s",vs(A.getR12()).c_str());
  Vector3d nt=anyV(g); Matrix3d nr=anyM(g); A.sett12(nt); if(r?!eq(A.getR12(),*r):!eq(A.getR12(),Matrix3d(Matrix3d::Identity()))) R.fail(str("%s:set",nm),"setting t changed R"); A.setR12(nr);
  if(!eq(A.gett12(),nt)||!eq(A.getR12(),nr)) R.fail(str("%s:set",nm),"prior not stored");
}
// serialized index of a multi adapter
template<class M,class F1,class F2,class F3> static void bijection(Reporter&R,const char*nm,M&A,const std::vector<int>&cnt,Rng&g,F1 frames,F2 frameOf,F3 count)
{
  int run=0; if((int)frames()!=(int)cnt.size()) R.fail(str("%s:frames",nm),"%d cameras, %zu given",(int)frames(),cnt.size());
  std::vector<std::vector<int> > all;
  for(size_t c=0;c<cnt.size();c++)
  {
    if((int)count(c)!=cnt[c]) R.fail(str("%s:percamera",nm),"camera %zu reports %d correspondences, %d given",c,(int)count(c),cnt[c]);
    all.push_back(std::vector<int>());
    for(int k=0;k<cnt[c];k++,run++)
    {
      R.ev(Reporter::h(Reporter::hs(nm),run*131+c));
      if(A.convertMultiIndex(c,k)!=run) R.fail(str("%s:convert",nm),"(%zu,%d) maps to %d, expected %d",c,k,A.convertMultiIndex(c,k),run);
      if(frameOf(run)!=(int)c||A.multiCorrespondenceIndex(run)!=k) R.fail(str("%s:inverse",nm),"%d maps back to (%d,%d), expected (%zu,%d)",run,frameOf(run),A.multiCorrespondenceIndex(run),c,k);
      if(g.p(0.6)) all.back().push_back(k);
    }
    g.shuffle(all.back());
  }
  if(g.p(0.3)&&all.size()>1) all.pop_back();
  std::vector<int> want; for(size_t c=0;c<all.size();c++){ int base=0; for(size_t q=0;q<c;q++) base+=cnt[q]; for(int k: all[c]) want.push_back(base+k); }
  std::vector<int> got=A.convertMultiIndices(all); if(got!=want) R.fail(str("%s:convertall",nm),"subset converted to %s, expected %s",iv(got).c_str(),iv(want).c_str());
}
static std::vector<int> counts(Rng&g,int c){ int cams=g.i(1,7); std::vector<int> v(cams); for(auto&x:v) x=g.p(0.15)?0:g.i(1,12); if(c%10==0) for(auto&x:v) x=5; if(c%13==0) v.assign(cams,0), v.back()=3; return v; }

static void absolute(Reporter&R)
{
  R.each("absolute",R.N(1500,60000),[&](Rng&g,int c)
  {
    int n=c%20==0?g.i(0,2):g.i(1,40), cams=g.i(1,6); AbsRef x; translations_t co; rotations_t cr; std::vector<int> cc(n);
    for(int k=0;k<cams;k++){ co.push_back(anyV(g)); cr.push_back(anyM(g)); }
    for(int k=0;k<n;k++){ x.f.push_back(anyV(g)); x.p.push_back(anyV(g)); cc[k]=g.i(cams); x.o.push_back(Vector3d::Zero()); x.r.push_back(Matrix3d::Identity()); }
    Vector3d t=anyV(g); Matrix3d r=anyM(g);
    { ap::CentralAbsoluteAdapter A(x.f,x.p); cmpAbs(R,"CentralAbsolute",A,x,g,0,0); }
    { ap::CentralAbsoluteAdapter A(x.f,x.p,r); cmpAbs(R,"CentralAbsolute(R)",A,x,g,0,&r); }
    { ap::CentralAbsoluteAdapter A(x.f,x.p,t,r); cmpAbs(R,"CentralAbsolute(t,R)",A,x,g,&t,&r); }
    std::vector<double> bp(3*n+1),bf(3*n+1),b6(6*n+1); for(int k=0;k<n;k++) for(int z=0;z<3;z++){ bp[3*k+z]=x.p[k][z]; bf[3*k+z]=x.f[k][z]; b6[6*k+z]=x.f[k][z]; b6[6*k+3+z]=co[cc[k]][z]; }
    { ap::MACentralAbsolute A(bp.data(),bf.data(),n,n); cmpAbs(R,"MACentralAbsolute",A,x,g,0,0); }
    for(int k=0;k<n;k++) x.o[k]=co[cc[k]];
    { ap::MANoncentralAbsolute A(bp.data(),b6.data(),n,n); cmpAbs(R,"MANoncentralAbsolute",A,x,g,0,0); }
    for(int k=0;k<n;k++) x.r[k]=cr[cc[k]];
    { ap::NoncentralAbsoluteAdapter A(x.f,cc,x.p,co,cr); cmpAbs(R,"NoncentralAbsolute",A,x,g,0,0); }
    { ap::NoncentralAbsoluteAdapter A(x.f,cc,x.p,co,cr,r); cmpAbs(R,"NoncentralAbsolute(R)",A,x,g,0,&r); }
    { ap::NoncentralAbsoluteAdapter A(x.f,cc,x.p,co,cr,t,r); cmpAbs(R,"NoncentralAbsolute(t,R)",A,x,g,&t,&r); }
  });
  R.each("absolute-multi",R.N(1500,60000),[&](Rng&g,int c)
  {
    std::vector<int> cnt=counts(g,c); AbsRef x; translations_t co; rotations_t cr; std::vector<std::shared_ptr<bearingVectors_t> > f; std::vector<std::shared_ptr<points_t> > p;
    for(size_t k=0;k<cnt.size();k++){ co.push_back(anyV(g)); cr.push_back(anyM(g)); f.push_back(std::make_shared<bearingVectors_t>()); p.push_back(std::make_shared<points_t>());
      for(int q=0;q<cnt[k];q++){ f[k]->push_back(anyV(g)); p[k]->push_back(anyV(g)); x.f.push_back(f[k]->back()); x.p.push_back(p[k]->back()); x.o.push_back(co[k]); x.r.push_back(cr[k]); } }
    ap::NoncentralAbsoluteMultiAdapter A(f,p,co,cr); cmpAbs(R,"NoncentralAbsoluteMulti",A,x,g,0,0);
    bijection(R,"NoncentralAbsoluteMulti",A,cnt,g,[&]{return A.getNumberFrames();},[&](int i){return A.multiFrameIndex(i);},[&](size_t k){return A.getNumberCorrespondences(k);});
    for(size_t k=0;k<cnt.size();k++){ if(!eq(A.getMultiCamOffset(k),co[k])||!eq(A.getMultiCamRotation(k),cr[k])) R.fail("NoncentralAbsoluteMulti:camera","camera %zu has other extrinsics",k);
      for(int q=0;q<cnt[k];q++) if(!eq(((ap::AbsoluteMultiAdapterBase&)A).getBearingVector(k,q),(*f[k])[q])||!eq(((ap::AbsoluteMultiAdapterBase&)A).getPoint(k,q),(*p[k])[q])||((ap::AbsoluteMultiAdapterBase&)A).getWeight(k,q)!=1.0) R.fail("NoncentralAbsoluteMulti:entry","entry (%zu,%d)",k,q); }
    if(c<2) R.sample("absolute multi adapter with counts %s",iv(cnt).c_str());
  });
}
static void relative(Reporter&R)
{
  R.each("relative",R.N(1500,60000),[&](Rng&g,int c)
  {
    int n=c%20==0?g.i(0,2):g.i(1,40), cams=g.i(1,6); RelRef x; translations_t co; rotations_t cr; std::vector<int> c1(n),c2(n); std::vector<double> w(n);
    for(int k=0;k<cams;k++){ co.push_back(anyV(g)); cr.push_back(anyM(g)); }
    for(int k=0;k<n;k++){ x.f1.push_back(anyV(g)); x.f2.push_back(anyV(g)); c1[k]=g.i(cams); c2[k]=g.i(cams); w[k]=g.p(0.1)?0:g.u(0,5); x.w.push_back(1); x.o1.push_back(Vector3d::Zero()); x.r1.push_back(Matrix3d::Identity()); }
    x.o2=x.o1; x.r2=x.r1; Vector3d t=anyV(g); Matrix3d r=anyM(g);
    { rp::CentralRelativeAdapter A(x.f1,x.f2); cmpRel(R,"CentralRelative",A,x,g,0,0); }
    { rp::CentralRelativeAdapter A(x.f1,x.f2,r); cmpRel(R,"CentralRelative(R)",A,x,g,0,&r); }
    { rp::CentralRelativeAdapter A(x.f1,x.f2,t,r); cmpRel(R,"CentralRelative(t,R)",A,x,g,&t,&r); }
    std::vector<double> a(3*n+1),b(3*n+1),a6(6*n+1),b6(6*n+1); for(int k=0;k<n;k++) for(int z=0;z<3;z++){ a[3*k+z]=x.f1[k][z]; b[3*k+z]=x.f2[k][z]; a6[6*k+z]=x.f1[k][z]; b6[6*k+z]=x.f2[k][z]; a6[6*k+3+z]=co[c1[k]][z]; b6[6*k+3+z]=co[c2[k]][z]; }
    { rp::MACentralRelative A(a.data(),b.data(),n,n); cmpRel(R,"MACentralRelative",A,x,g,0,0); }
    { RelRef y=x; y.w=w; rp::CentralRelativeWeightingAdapter A(x.f1,x.f2,w); cmpRel(R,"Weighting",A,y,g,0,0); rp::CentralRelativeWeightingAdapter B(x.f1,x.f2,w,r); cmpRel(R,"Weighting(R)",B,y,g,0,&r); rp::CentralRelativeWeightingAdapter D(x.f1,x.f2,w,t,r); cmpRel(R,"Weighting(t,R)",D,y,g,&t,&r); }
    for(int k=0;k<n;k++){ x.o1[k]=co[c1[k]]; x.o2[k]=co[c2[k]]; }
    { rp::MANoncentralRelative A(a6.data(),b6.data(),n,n); cmpRel(R,"MANoncentralRelative",A,x,g,0,0); }
    for(int k=0;k<n;k++){ x.r1[k]=cr[c1[k]]; x.r2[k]=cr[c2[k]]; }
    { rp::NoncentralRelativeAdapter A(x.f1,x.f2,c1,c2,co,cr); cmpRel(R,"NoncentralRelative",A,x,g,0,0); }
    { rp::NoncentralRelativeAdapter A(x.f1,x.f2,c1,c2,co,cr,r); cmpRel(R,"NoncentralRelative(R)",A,x,g,0,&r); }
    { rp::NoncentralRelativeAdapter A(x.f1,x.f2,c1,c2,co,cr,t,r); cmpRel(R,"NoncentralRelative(t,R)",A,x,g,&t,&r); }
  });
  R.each("relative-multi",R.N(1500,60000),[&](Rng&g,int c)
  {
    std::vector<int> cnt=counts(g,c); RelRef x; translations_t co; rotations_t cr; std::vector<std::shared_ptr<bearingVectors_t> > f1,f2; std::vector<std::vector<double> > m1,m2; std::vector<double> mo;
    for(size_t k=0;k<cnt.size();k++){ co.push_back(anyV(g)); cr.push_back(anyM(g)); for(int z=0;z<3;z++) mo.push_back(co[k][z]); f1.push_back(std::make_shared<bearingVectors_t>()); f2.push_back(std::make_shared<bearingVectors_t>()); m1.push_back(std::vector<double>()); m2.push_back(std::vector<double>());
      for(int q=0;q<cnt[k];q++){ f1[k]->push_back(anyV(g)); f2[k]->push_back(anyV(g)); x.f1.push_back(f1[k]->back()); x.f2.push_back(f2[k]->back()); x.o1.push_back(Vector3d::Zero()); x.r1.push_back(Matrix3d::Identity()); x.w.push_back(1);
        for(int z=0;z<3;z++){ m1[k].push_back((*f1[k])[q][z]); m2[k].push_back((*f2[k])[q][z]); } } }
    x.o2=x.o1; x.r2=x.r1; 
    #define BI(nm,A) bijection(R,nm,A,cnt,g,[&]{return A.getNumberPairs();},[&](int i){return A.multiPairIndex(i);},[&](size_t k){return A.getNumberCorrespondences(k);}); \
      for(size_t k=0;k<cnt.size();k++) for(int q=0;q<cnt[k];q++) if(!eq(((rp::RelativeMultiAdapterBase&)A).getBearingVector1(k,q),(*f1[k])[q])||!eq(((rp::RelativeMultiAdapterBase&)A).getBearingVector2(k,q),(*f2[k])[q])||((rp::RelativeMultiAdapterBase&)A).getWeight(k,q)!=1.0) R.fail(nm ":entry","entry (%zu,%d)",k,q);
    { rp::CentralRelativeMultiAdapter A(f1,f2); cmpRel(R,"CentralRelativeMulti",A,x,g,0,0); BI("CentralRelativeMulti",A) }
    x.o1.clear(); x.r1.clear(); for(size_t k=0;k<cnt.size();k++) for(int q=0;q<cnt[k];q++){ x.o1.push_back(co[k]); x.r1.push_back(Matrix3d::Identity()); } x.o2=x.o1; x.r2=x.r1;
    { std::vector<double*> p1,p2; for(size_t k=0;k<cnt.size();k++){ p1.push_back(m1[k].data()); p2.push_back(m2[k].data()); }
      rp::MANoncentralRelativeMulti A(p1,p2,mo.data(),cnt); cmpRel(R,"MANoncentralRelativeMulti",A,x,g,0,0); BI("MANoncentralRelativeMulti",A)
      for(size_t k=0;k<cnt.size();k++) if(!eq(A.getCamOffset(k),co[k])) R.fail("MANoncentralRelativeMulti:camera","camera %zu",k); }
    x.r1.clear(); for(size_t k=0;k<cnt.size();k++) for(int q=0;q<cnt[k];q++) x.r1.push_back(cr[k]); x.r2=x.r1;
    { rp::NoncentralRelativeMultiAdapter A(f1,f2,co,cr); cmpRel(R,"NoncentralRelativeMulti",A,x,g,0,0); BI("NoncentralRelativeMulti",A)
      for(size_t k=0;k<cnt.size();k++) if(!eq(A.getCamOffset(k),co[k])||!eq(A.getCamRotation(k),cr[k])) R.fail("NoncentralRelativeMulti:camera","camera %zu",k); }
  });
}
static void cloud(Reporter&R)
{
  auto cmp=[&](const char*nm,pc::PointCloudAdapterBase&A,const points_t&a,const points_t&b,Rng&g,const Vector3d*t,const Matrix3d*r)
  {
    R.cov(std::string("adapter ")+nm); if(A.getNumberCorrespondences()!=a.size()){ R.fail(str("%s:count",nm),"%zu points",A.getNumberCorrespondences()); return; }
    for(size_t i=0;i<a.size();i++){ R.ev(Reporter::hs(nm)+i,a[i][0]+b[i][1]); if(!eq(A.getPoint1(i),a[i])||!eq(A.getPoint2(i),b[i])||A.getWeight(i)!=1.0) R.fail(str("%s:point",nm),"entry %zu: %s / %s weight %g",i,vs(A.getPoint1(i)).c_str(),vs(A.getPoint2(i)).c_str(),A.getWeight(i)); }
    if(!eq(A.gett12(),t?*t:Vector3d(Vector3d::Zero()))||!eq(A.getR12(),r?*r:Matrix3d(Matrix3d::Identity()))) R.fail(str("%s:prior",nm),"prior differs");
    Vector3d nt=anyV(g); Matrix3d nr=anyM(g); A.sett12(nt); A.setR12(nr); if(!eq(A.gett12(),nt)||!eq(A.getR12(),nr)) R.fail(str("%s:set",nm),"prior not stored");
  };
  R.each("cloud",R.N(1500,60000),[&](Rng&g,int c)
  {
    int n=g.i(c%10?1:0,40); points_t a,b; std::vector<double> da,db; for(int k=0;k<n;k++){ a.push_back(anyV(g)); b.push_back(anyV(g)); for(int z=0;z<3;z++){ da.push_back(a[k][z]); db.push_back(b[k][z]); } }
    da.push_back(0); db.push_back(0); Vector3d t=anyV(g); Matrix3d r=anyM(g);
    { pc::PointCloudAdapter A(a,b); cmp("PointCloud",A,a,b,g,0,0); } { pc::PointCloudAdapter A(a,b,r); cmp("PointCloud(R)",A,a,b,g,0,&r); } { pc::PointCloudAdapter A(a,b,t,r); cmp("PointCloud(t,R)",A,a,b,g,&t,&r); }
    { pc::MAPointCloud A(da.data(),db.data(),n,n); cmp("MAPointCloud",A,a,b,g,0,0); }
  });
}
// live views: several adapters over the same containers, which change (in place, in size, and by reallocation) between readings
static int sz(Rng&g){ return g.p(0.03)?g.i(1000,9000):g.p(0.1)?g.i(40,300):g.i(1,40); }
static int cz(Rng&g){ return g.p(0.1)?g.i(20,300):g.i(1,8); }
struct AbsLive { const char*nm; std::shared_ptr<ap::AbsoluteAdapterBase> a; std::function<AbsRef()> want; bool set; };
static void live(Reporter&R)
{
  R.each("live-absolute",R.N(600,15000),[&](Rng&g,int c)
  {
    int n0=sz(g),cams=cz(g); bearingVectors_t f; points_t p; std::vector<int> cc; translations_t co; rotations_t cr; for(int k=0;k<cams;k++){ co.push_back(anyV(g)); cr.push_back(anyM(g)); }
    auto add=[&]{ f.push_back(anyV(g)); p.push_back(anyV(g)); cc.push_back(g.i(cams)); }; for(int k=0;k<n0;k++) add();
    int na=n0; std::vector<double> bp(3*na),bf(3*na),b6(6*na); for(auto&v:bp) v=g.n(); for(auto&v:bf) v=g.n(); for(auto&v:b6) v=g.n();
    auto base=[&](bool cen){ AbsRef x; x.f=f; x.p=p; for(size_t k=0;k<f.size();k++){ x.o.push_back(cen?Vector3d(Vector3d::Zero()):Vector3d(co[cc[k]])); x.r.push_back(cen?Matrix3d(Matrix3d::Identity()):Matrix3d(cr[cc[k]])); } return x; };
    auto arr=[&](bool cen){ AbsRef x; for(int k=0;k<na;k++){ x.f.push_back(cen?Vector3d(bf[3*k],bf[3*k+1],bf[3*k+2]):Vector3d(b6[6*k],b6[6*k+1],b6[6*k+2])); x.p.push_back(Vector3d(bp[3*k],bp[3*k+1],bp[3*k+2])); x.o.push_back(cen?Vector3d(Vector3d::Zero()):Vector3d(b6[6*k+3],b6[6*k+4],b6[6*k+5])); x.r.push_back(Matrix3d::Identity()); } return x; };
    std::vector<AbsLive> L; Vector3d t=anyV(g); Matrix3d r=anyM(g);
    L.push_back({"CentralAbsolute",std::make_shared<ap::CentralAbsoluteAdapter>(f,p,t,r),[&]{return base(true);},true});
    L.push_back({"NoncentralAbsolute",std::make_shared<ap::NoncentralAbsoluteAdapter>(f,cc,p,co,cr,t,r),[&]{return base(false);},true});
    L.push_back({"MACentralAbsolute",std::make_shared<ap::MACentralAbsolute>(bp.data(),bf.data(),na,na),[&]{return arr(true);},false});
    L.push_back({"MANoncentralAbsolute",std::make_shared<ap::MANoncentralAbsolute>(bp.data(),b6.data(),na,na),[&]{return arr(false);},false});
    for(int round=0;round<4;round++)
    {
      for(int q: g.subset((int)L.size(),(int)L.size())){ Vector3d ct=t; Matrix3d cm=r; bool s=L[q].set; if(round){ ct=L[q].a->gett(); cm=L[q].a->getR(); s=true; } cmpAbs(R,L[q].nm,*L[q].a,L[q].want(),g,s?&ct:0,s?&cm:0); }
      int n=(int)f.size(); for(int k=0;k<n;k++) if(g.p(0.5)){ if(g.p(0.5)) f[k]=anyV(g); if(g.p(0.5)) p[k]=anyV(g); if(g.p(0.5)) cc[k]=g.i(cams); }
      for(int k=0;k<cams;k++) if(g.p(0.5)){ if(g.p(0.5)) co[k]=anyV(g); else cr[k]=anyM(g); }
      for(auto&v:bp) if(g.p(0.3)) v=g.n(); for(auto&v:bf) if(g.p(0.3)) v=g.n(); for(auto&v:b6) if(g.p(0.3)) v=g.n();
      if(round==1){ int m=g.i(1,60); for(int k=0;k<m;k++) add(); co.push_back(anyV(g)); cr.push_back(anyM(g)); cams++; cc.back()=cams-1; }
      if(round==2){ int m=g.i(1,(int)f.size()+1); f.resize(m); p.resize(m); cc.resize(m); f.shrink_to_fit(); p.shrink_to_fit(); }
    }
    if(c<1) R.sample("live absolute adapters: %d correspondences at first, %zu at last, %d cameras",n0,f.size(),cams);
  });
  R.each("live-relative",R.N(600,15000),[&](Rng&g,int c)
  {
    int n0=sz(g),cams=cz(g); bearingVectors_t f1,f2; std::vector<int> c1,c2; std::vector<double> w; translations_t co; rotations_t cr; for(int k=0;k<cams;k++){ co.push_back(anyV(g)); cr.push_back(anyM(g)); }
    auto add=[&]{ f1.push_back(anyV(g)); f2.push_back(anyV(g)); c1.push_back(g.i(cams)); c2.push_back(g.i(cams)); w.push_back(g.u(0,4)); }; for(int k=0;k<n0;k++) add();
    int na=n0; std::vector<double> a(3*na),b(3*na),a6(6*na),b6(6*na); for(auto*v:{&a,&b,&a6,&b6}) for(auto&z:*v) z=g.n();
    auto base=[&](int kind){ RelRef x; x.f1=f1; x.f2=f2; for(size_t k=0;k<f1.size();k++){ bool ce=kind<2; x.o1.push_back(ce?Vector3d(Vector3d::Zero()):Vector3d(co[c1[k]])); x.o2.push_back(ce?Vector3d(Vector3d::Zero()):Vector3d(co[c2[k]])); x.r1.push_back(ce?Matrix3d(Matrix3d::Identity()):Matrix3d(cr[c1[k]])); x.r2.push_back(ce?Matrix3d(Matrix3d::Identity()):Matrix3d(cr[c2[k]])); x.w.push_back(kind==1?w[k]:1.0); } return x; };
    auto arr=[&](bool cen){ RelRef x; for(int k=0;k<na;k++){ auto v=[&](const std::vector<double>&d,int o){ return Vector3d(d[o],d[o+1],d[o+2]); }; x.f1.push_back(cen?v(a,3*k):v(a6,6*k)); x.f2.push_back(cen?v(b,3*k):v(b6,6*k)); x.o1.push_back(cen?Vector3d(Vector3d::Zero()):v(a6,6*k+3)); x.o2.push_back(cen?Vector3d(Vector3d::Zero()):v(b6,6*k+3)); x.r1.push_back(Matrix3d::Identity()); x.r2.push_back(Matrix3d::Identity()); x.w.push_back(1.0); } return x; };
    struct E { const char*nm; std::shared_ptr<rp::RelativeAdapterBase> a; std::function<RelRef()> want; bool set; }; std::vector<E> L; Vector3d t=anyV(g); Matrix3d r=anyM(g);
    L.push_back({"CentralRelative",std::make_shared<rp::CentralRelativeAdapter>(f1,f2,t,r),[&]{return base(0);},true});
    L.push_back({"Weighting",std::make_shared<rp::CentralRelativeWeightingAdapter>(f1,f2,w,t,r),[&]{return base(1);},true});
    L.push_back({"NoncentralRelative",std::make_shared<rp::NoncentralRelativeAdapter>(f1,f2,c1,c2,co,cr,t,r),[&]{return base(2);},true});
    L.push_back({"MACentralRelative",std::make_shared<rp::MACentralRelative>(a.data(),b.data(),na,na),[&]{return arr(true);},false});
    L.push_back({"MANoncentralRelative",std::make_shared<rp::MANoncentralRelative>(a6.data(),b6.data(),na,na),[&]{return arr(false);},false});
    for(int round=0;round<4;round++)
    {
      for(int q: g.subset((int)L.size(),(int)L.size())){ Vector3d ct=t; Matrix3d cm=r; bool s=L[q].set; if(round){ ct=L[q].a->gett12(); cm=L[q].a->getR12(); s=true; } cmpRel(R,L[q].nm,*L[q].a,L[q].want(),g,s?&ct:0,s?&cm:0); }
      int n=(int)f1.size(); for(int k=0;k<n;k++) if(g.p(0.5)){ if(g.p(0.5)) f1[k]=anyV(g); if(g.p(0.5)) f2[k]=anyV(g); if(g.p(0.5)) c1[k]=g.i(cams); if(g.p(0.5)) c2[k]=g.i(cams); if(g.p(0.5)) w[k]=g.u(0,4); }
      for(int k=0;k<cams;k++) if(g.p(0.5)){ if(g.p(0.5)) co[k]=anyV(g); else cr[k]=anyM(g); }
      for(auto*v:{&a,&b,&a6,&b6}) for(auto&z:*v) if(g.p(0.3)) z=g.n();
      if(round==1){ int m=g.i(1,60); for(int k=0;k<m;k++) add(); co.push_back(anyV(g)); cr.push_back(anyM(g)); cams++; c1.back()=c2.front()=cams-1; }
      if(round==2){ int m=g.i(1,(int)f1.size()+1); f1.resize(m); f2.resize(m); c1.resize(m); c2.resize(m); w.resize(m); f1.shrink_to_fit(); f2.shrink_to_fit(); w.shrink_to_fit(); }
    }
    if(c<1) R.sample("live relative adapters: %d correspondences at first, %zu at last, %d cameras",n0,f1.size(),cams);
  });
  R.each("live-multi",R.N(600,15000),[&](Rng&g,int c)
  {
    int cams=cz(g); std::vector<int> cnt(cams); for(auto&x:cnt) x=g.p(0.1)?0:g.p(0.03)?g.i(200,900):g.i(1,12); typedef std::vector<std::shared_ptr<bearingVectors_t> > FB; FB f1,f2; std::vector<std::shared_ptr<points_t> > p; translations_t co; rotations_t cr; std::vector<std::vector<double> > m1,m2; std::vector<double> mo;
    for(int k=0;k<cams;k++){ co.push_back(anyV(g)); cr.push_back(anyM(g)); for(int z=0;z<3;z++) mo.push_back(g.n()); f1.push_back(std::make_shared<bearingVectors_t>()); f2.push_back(std::make_shared<bearingVectors_t>()); p.push_back(std::make_shared<points_t>()); m1.push_back({}); m2.push_back({}); for(int q=0;q<cnt[k];q++){ f1[k]->push_back(anyV(g)); f2[k]->push_back(anyV(g)); p[k]->push_back(anyV(g)); for(int z=0;z<3;z++){ m1[k].push_back(g.n()); m2[k].push_back(g.n()); } } }
    std::vector<double*> p1,p2; for(int k=0;k<cams;k++){ p1.push_back(m1[k].data()); p2.push_back(m2[k].data()); }
    ap::NoncentralAbsoluteMultiAdapter A(f1,p,co,cr); rp::CentralRelativeMultiAdapter B(f1,f2); rp::NoncentralRelativeMultiAdapter C(f1,f2,co,cr); rp::MANoncentralRelativeMulti D(p1,p2,mo.data(),cnt);
    auto rel=[&](int kind){ RelRef x; for(int k=0;k<cams;k++) for(int q=0;q<cnt[k];q++){ if(kind<2){ x.f1.push_back((*f1[k])[q]); x.f2.push_back((*f2[k])[q]); } else { x.f1.push_back(Vector3d(m1[k][3*q],m1[k][3*q+1],m1[k][3*q+2])); x.f2.push_back(Vector3d(m2[k][3*q],m2[k][3*q+1],m2[k][3*q+2])); } x.w.push_back(1); x.o1.push_back(kind==0?Vector3d(Vector3d::Zero()):kind==1?Vector3d(co[k]):Vector3d(mo[3*k],mo[3*k+1],mo[3*k+2])); x.r1.push_back(kind==1?Matrix3d(cr[k]):Matrix3d(Matrix3d::Identity())); } x.o2=x.o1; x.r2=x.r1; return x; };
    for(int round=0;round<3;round++)
    {
      AbsRef x; for(int k=0;k<cams;k++) for(int q=0;q<cnt[k];q++){ x.f.push_back((*f1[k])[q]); x.p.push_back((*p[k])[q]); x.o.push_back(co[k]); x.r.push_back(cr[k]); }
      Vector3d t=A.gett(); Matrix3d r=A.getR(); cmpAbs(R,"NoncentralAbsoluteMulti",A,x,g,round?&t:0,round?&r:0);
      rp::RelativeMultiAdapterBase*M[3]={&B,&C,&D}; const char*nm[3]={"CentralRelativeMulti","NoncentralRelativeMulti","MANoncentralRelativeMulti"};
      for(int q=0;q<3;q++){ t=M[q]->gett12(); r=M[q]->getR12(); cmpRel(R,nm[q],*M[q],rel(q),g,round?&t:0,round?&r:0); }
      bijection(R,"NoncentralAbsoluteMulti",A,cnt,g,[&]{return A.getNumberFrames();},[&](int i){return A.multiFrameIndex(i);},[&](size_t k){return A.getNumberCorrespondences(k);});
      for(int q=0;q<3;q++) bijection(R,nm[q],*M[q],cnt,g,[&]{return M[q]->getNumberPairs();},[&](int i){return M[q]->multiPairIndex(i);},[&](size_t k){return M[q]->getNumberCorrespondences(k);});
      for(int k=0;k<cams;k++){ if(g.p(0.5)) co[k]=anyV(g); if(g.p(0.5)) cr[k]=anyM(g); for(int z=0;z<3;z++) if(g.p(0.5)) mo[3*k+z]=g.n(); for(int q=0;q<cnt[k];q++){ if(g.p(0.4)) (*f1[k])[q]=anyV(g); if(g.p(0.4)) (*f2[k])[q]=anyV(g); if(g.p(0.4)) (*p[k])[q]=anyV(g); } for(auto&z:m1[k]) if(g.p(0.3)) z=g.n(); for(auto&z:m2[k]) if(g.p(0.3)) z=g.n(); }
    }
  });
  R.each("live-cloud",R.N(600,15000),[&](Rng&g,int)
  {
    int n0=sz(g); points_t a,b; for(int k=0;k<n0;k++){ a.push_back(anyV(g)); b.push_back(anyV(g)); } std::vector<double> da(3*n0),db(3*n0); for(auto*v:{&da,&db}) for(auto&z:*v) z=g.n();
    pc::PointCloudAdapter A(a,b); pc::MAPointCloud B(da.data(),db.data(),n0,n0);
    for(int round=0;round<4;round++)
    {
      if(A.getNumberCorrespondences()!=a.size()) R.fail("PointCloud:count","%zu points, the container has %zu",A.getNumberCorrespondences(),a.size());
      else for(int i: g.subset((int)a.size(),(int)a.size())){ R.ev(i,a[i][0]); if(!eq(A.getPoint1(i),a[i])||!eq(A.getPoint2(i),b[i])||A.getWeight(i)!=1.0) R.fail("PointCloud:live","entry %d does not follow the container",i); }
      if((int)B.getNumberCorrespondences()!=n0) R.fail("MAPointCloud:count","%zu points",B.getNumberCorrespondences());
      else for(int i: g.subset(n0,n0)) if(memcmp(B.getPoint1(i).eval().data(),&da[3*i],24)||memcmp(B.getPoint2(i).eval().data(),&db[3*i],24)||B.getWeight(i)!=1.0) R.fail("MAPointCloud:live","entry %d does not follow the array",i);
      for(auto&v:a) if(g.p(0.4)) v=anyV(g); for(auto&v:b) if(g.p(0.4)) v=anyV(g); for(auto*v:{&da,&db}) for(auto&z:*v) if(g.p(0.3)) z=g.n();
      if(round==1) for(int m=g.i(1,60);m--;){ a.push_back(anyV(g)); b.push_back(anyV(g)); } if(round==2){ int m=g.i(1,(int)a.size()+1); a.resize(m); b.resize(m); a.shrink_to_fit(); b.shrink_to_fit(); }
    }
  });
}
void monitor(Reporter&R){ absolute(R); relative(R); cloud(R); live(R); }
