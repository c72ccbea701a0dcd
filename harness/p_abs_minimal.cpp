// P01  minimal absolute pose solvers (two/three point, central and generalized)
#include "scenes.hpp"
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
using namespace vf; using namespace opengv; namespace ap=opengv::absolute_pose;

static const int NSC=3;
// residual of a pose on correspondence k (angle between bearing and direction to the point)
static double resid(const AbsScene&s,int k,const transformation_t&T)
{ Vector3d b=T.block<3,3>(0,0).transpose()*(s.p[k]-T.col(3)); Vector3d c=s.cr[s.cc[k]].transpose()*(b-s.co[s.cc[k]]); return vecAngle(c,s.f[k]); }
static double best(const transformations_t&v,const AbsScene&s,double scale,int*arg=0)
{ double e=INFINITY; for(size_t k=0;k<v.size();k++){ if(!fin(v[k])) continue; double q=(v[k].block<3,3>(0,0)-s.R).norm()+(v[k].col(3)-s.t).norm()/scale; if(q<e){ e=q; if(arg)*arg=(int)k; } } return e; }
static bool same(const transformations_t&a,const transformations_t&b)
{ if(a.size()!=b.size()) return false; for(size_t k=0;k<a.size();k++) if((fin(a[k])||fin(b[k]))&&memcmp(a[k].data(),b[k].data(),sizeof(double)*12)) return false; return true; }
// every element of a has a partner in b
static double setDist(const transformations_t&a,const transformations_t&b,double scale)
{ double w=0; for(auto&x:a){ double m=INFINITY; for(auto&y:b) if(fin(y)) m=std::min(m,(x.block<3,3>(0,0)-y.block<3,3>(0,0)).norm()+(x.col(3)-y.col(3)).norm()/scale); w=std::max(w,m); } return w; }

static void shape(Reporter&R,const char*alg,const std::string&fl,const transformations_t&v,size_t lim)
{
  if(v.size()>lim) R.fail(str("%s:count",alg),"%s returned %zu poses, documented at most %zu (flavour %s)",alg,v.size(),lim,fl.c_str());
  for(auto&T:v)
  {
    if(!fin(T)) { R.fail(str("%s:nonfinite",alg),"%s returned a pose with NaN/inf (flavour %s): %s",alg,fl.c_str(),vs(T).c_str()); continue; }
    // the accuracy of an ill-conditioned solution is bounded statistically, gross violations individually
    R.err(str("%s:rotation/%s",alg,fl.c_str()),so3Err(T.block<3,3>(0,0)),1e-6,0.003,"%s returned a matrix that is no rotation: %s",alg,vs(T).c_str());
  }
}

static void p3p(Reporter&R)
{
  for(auto&fl:absFlavours())
  R.each("p3p/"+fl,R.N(1500,40000),[&](Rng&g,int c)
  {
    AbsCase q; int guard=0;
    do { q=makeAbsFlavour(g,fl,3+(c%4?g.i(1,9):0),0); } while(guard++<200 &&
      (triangleQuality(q.s.p[0],q.s.p[1],q.s.p[2])<0.15 || fabs(triangleQuality(q.s.f[0],q.s.f[1],q.s.f[2]))<0.02 ||
       std::min({vecAngle(q.s.f[0],q.s.f[1]),vecAngle(q.s.f[0],q.s.f[2]),vecAngle(q.s.f[1],q.s.f[2])})<0.03 ||
       std::max({vecAngle(q.s.f[0],q.s.f[1]),vecAngle(q.s.f[0],q.s.f[2]),vecAngle(q.s.f[1],q.s.f[2])})>3.1));
    AbsScene &s=q.s; R.ev(Reporter::hs(fl)+c,s.t[0]); int n=s.n();
    // the first three correspondences carry the scene; place them at arbitrary
    // positions of a larger adapter whose other entries are unrelated
    std::vector<int> pos=g.subset(n,3); bearingVectors_t f(n); points_t p(n);
    for(int k=0;k<n;k++){ f[k]=g.unit(); p[k]=10*q.scale*g.nv(); }
    for(int k=0;k<3;k++){ f[pos[k]]=s.f[k]; p[pos[k]]=s.p[k]; }
    ap::CentralAbsoluteAdapter A(f,p);
    bearingVectors_t f3(s.f.begin(),s.f.begin()+3); points_t p3(s.p.begin(),s.p.begin()+3); ap::CentralAbsoluteAdapter B(f3,p3);
    transformations_t k=ap::p3p_kneip(A,pos[0],pos[1],pos[2]), ga=ap::p3p_gao(A,pos[0],pos[1],pos[2]);
    shape(R,"p3p_kneip",fl,k,4); shape(R,"p3p_gao",fl,ga,4);
    int bi=-1,bg=-1; double ek=best(k,s,q.scale,&bi),eg=best(ga,s,q.scale,&bg);
    R.err("p3p_kneip:truth/"+fl,ek,1e-5,0.002,"no returned pose is the true one; R=%s t=%s f=%s p=%s",vs(s.R).c_str(),vs(s.t).c_str(),vs(f3[0]).c_str(),vs(p3[0]).c_str());
    R.err("p3p_gao:truth/"+fl,eg,1e-5,fl=="narrow"?0.015:0.005,"no returned pose is the true one; R=%s t=%s",vs(s.R).c_str(),vs(s.t).c_str());
    // overloads and subsets
    if(!same(k,ap::p3p_kneip(B))||!same(k,ap::p3p_kneip(B,iota(3)))||!same(k,ap::p3p_kneip(A,pos))) R.fail("p3p_kneip:overload","p3p_kneip(subset/indices/default) differ, flavour %s",fl.c_str());
    if(!same(ga,ap::p3p_gao(B))||!same(ga,ap::p3p_gao(B,iota(3)))||!same(ga,ap::p3p_gao(A,pos))) R.fail("p3p_gao:overload","p3p_gao(subset/indices/default) differ, flavour %s",fl.c_str());
    // data-consistent poses: the two solvers agree; order of the points does not matter
    auto consistent=[&](const transformations_t&v){ transformations_t r; for(auto&T:v) if(fin(T)&&so3Err(T.block<3,3>(0,0))<1e-6&&resid(s,0,T)<1e-9&&resid(s,1,T)<1e-9&&resid(s,2,T)<1e-9) r.push_back(T); return r; };
    transformations_t ck=consistent(k),cg=consistent(ga);
    R.cov("p3p consistent poses",ck.size()+cg.size());
    R.err("p3p:agree/"+fl,std::max(setDist(ck,ga,q.scale),setDist(cg,k,q.scale)),1e-4,0.006,"kneip finds %zu and gao %zu poses consistent with the data, and they differ",ck.size(),cg.size());
    int pm[3]={0,1,2}; for(int z=2;z>0;z--) std::swap(pm[z],pm[g.i(z+1)]);
    transformations_t k2=ap::p3p_kneip(A,pos[pm[0]],pos[pm[1]],pos[pm[2]]),g2=ap::p3p_gao(A,pos[pm[0]],pos[pm[1]],pos[pm[2]]);
    R.err("p3p_kneip:order/"+fl,setDist(ck,k2,q.scale),1e-4,0.006,"permuting the three points (%d %d %d) loses a consistent pose",pm[0],pm[1],pm[2]);
    R.err("p3p_gao:order/"+fl,setDist(cg,g2,q.scale),1e-4,0.006,"permuting the three points (%d %d %d) loses a consistent pose",pm[0],pm[1],pm[2]);
    if(c<2) R.sample("p3p %s: R=%s t=%s -> kneip %zu poses (err %.2g), gao %zu (err %.2g)",fl.c_str(),vs(s.R).c_str(),vs(s.t.transpose()).c_str(),k.size(),ek,ga.size(),eg);
  });
}

static void p2p(Reporter&R)
{
  std::vector<std::string> fls=absFlavours(); fls.push_back("diag");
  for(auto&fl:fls)
  R.each("p2p/"+fl,R.N(1500,40000),[&](Rng&g,int c)
  {
    AbsCase q; int guard=0; int n=2+(c%3?g.i(1,9):0);
    do { q=makeAbsFlavour(g,fl=="diag"?"std":fl,n,0);
      if(fl=="diag") { // the two points differ along an axis or a diagonal of the world frame
        Vector3d d; do d=Vector3d(g.i(-1,1),g.i(-1,1),g.i(-1,1)); while(d.norm()<0.5); AbsScene z=q.s; Vector3d p0=z.p[0]; z.p.clear(); z.f.clear(); z.cc.clear(); Vector3d i0(floor(4*p0[0])/4,floor(4*p0[1])/4,floor(4*p0[2])/4); z.add(i0,0); z.add(i0+d*(g.i(1,6)/2.0),0); for(int k=2;k<n;k++) z.add(q.s.p[k],0); q.s=z; }
    } while(guard++<100&&(vecAngle(q.s.f[0],q.s.f[1])<0.05||vecAngle(q.s.f[0],q.s.f[1])>3.0));
    AbsScene&s=q.s; R.ev(Reporter::hs(fl)+c,s.t[0]);
    std::vector<int> pos=g.subset(n,2); bearingVectors_t f(n); points_t p(n);
    for(int k=0;k<n;k++){ f[k]=g.unit(); p[k]=10*q.scale*g.nv(); }
    for(int k=0;k<2;k++){ f[pos[k]]=s.f[k]; p[pos[k]]=s.p[k]; }
    ap::CentralAbsoluteAdapter A(f,p,s.R); bearingVectors_t f2(s.f.begin(),s.f.begin()+2); points_t p2(s.p.begin(),s.p.begin()+2);
    ap::CentralAbsoluteAdapter B(f2,p2); B.setR(s.R);
    translation_t t=ap::p2p(A,pos[0],pos[1]);
    R.err("p2p:truth/"+fl,(t-s.t).norm()/q.scale,1e-7,0,"p2p position %s, true %s",vs(t).c_str(),vs(s.t).c_str());
    translation_t ts=ap::p2p(A,pos[1],pos[0]);
    R.err("p2p:order/"+fl,(ts-s.t).norm()/q.scale,1e-7,0,"p2p with swapped points");
    translation_t a=ap::p2p(B),b=ap::p2p(A,pos),d=ap::p2p(B,iota(2));
    if((a-t).norm()||(b-t).norm()||(d-t).norm()) R.fail("p2p:overload","p2p(subset/indices/default) differ");
  });
}

// the two bearing vectors enclose a tiny or an almost straight angle
static void p2pAngles(Reporter&R)
{
  for(int d=1;d<=4;d++) R.each(str("p2p/angle1e-%d",d),R.N(1500,40000),[&](Rng&g,int c)
  {
    double a=pow(10,-d)*g.u(1,10); if(a>1) a=1; bool flat=c%2; AbsScene s; s.R=g.rot(); s.t=g.box(2); s.co.push_back(Vector3d::Zero()); s.cr.push_back(Matrix3d::Identity());
    Vector3d d1=g.unit(),d2=g.rotAxis(d1.cross(g.unit()).normalized(),flat?M_PI-a:a)*d1; double l1=g.u(1,8),l2=g.u(1,8);
    s.add(s.R*(l1*d1)+s.t,0); s.add(s.R*(l2*d2)+s.t,0); ap::CentralAbsoluteAdapter A(s.f,s.p,s.R); R.ev(Reporter::hs("p2pangle")+c,s.t[0]);
    double sc=8*std::max(1.0,s.t.norm()/8),tol=3e-15/(a*a)+1e-12;
    for(int k=0;k<2;k++) R.err(str("p2p:angle/1e-%d%s",d,flat?"flat":""),(ap::p2p(A,k,1-k)-s.t).norm()/sc/tol,1,0,"bearing vectors enclosing %g rad%s",a,flat?" less than a straight angle":"");
  });
}

static void gp3p(Reporter&R)
{
  for(int rig=0;rig<4;rig++) for(auto&fl:absFlavours())
  R.each(str("gp3p/rig%d/",rig)+fl,R.N(500,20000),[&](Rng&g,int c)
  {
    // rigs: 1 three cameras, 2 two cameras, 3 three close cameras, 0 many cameras
    int cams=rig==1?3:rig==2?2:rig==3?3:6; AbsCase q; int n=3+(c%3?g.i(1,9):0); int guard=0;
    do { q=makeAbsFlavour(g,fl,n,cams,rig==3?0.15:0.7); } while(guard++<100&&triangleQuality(q.s.p[0],q.s.p[1],q.s.p[2])<0.15);
    AbsScene&s=q.s; R.ev(Reporter::hs(fl)+c+rig*977,s.t[0]);
    std::vector<int> pos=g.subset(n,3); bearingVectors_t f(n); points_t p(n); std::vector<int> cc(n);
    for(int k=0;k<n;k++){ f[k]=g.unit(); p[k]=10*q.scale*g.nv(); cc[k]=g.i((int)s.co.size()); }
    for(int k=0;k<3;k++){ f[pos[k]]=s.f[k]; p[pos[k]]=s.p[k]; cc[pos[k]]=s.cc[k]; }
    ap::NoncentralAbsoluteAdapter A(f,cc,p,s.co,s.cr); bearingVectors_t f3(s.f.begin(),s.f.begin()+3); points_t p3(s.p.begin(),s.p.begin()+3); std::vector<int> c3(s.cc.begin(),s.cc.begin()+3);
    ap::NoncentralAbsoluteAdapter B(f3,c3,p3,s.co,s.cr);
    transformations_t v=ap::gp3p(A,pos[0],pos[1],pos[2]);
    double e=best(v,s,q.scale); R.cov("gp3p poses",v.size());
    // the Cayley parametrisation is singular at half turns: no claim there
    if(M_PI-angleOf(s.R)<0.1){ R.cov("gp3p half turn (no claim)"); } else
    { shape(R,"gp3p",fl,v,8); bool easy=fl=="idrot"||fl=="idpose"||fl=="smallrot";
      R.err(str("gp3p:truth/rig%d/",rig)+fl,e,1e-3,easy?0.03:fl=="narrow"?0.13:0.11,"no returned pose is the true one (%zu poses); R=%s t=%s",v.size(),vs(s.R).c_str(),vs(s.t).c_str());
      R.err("gp3p:truth-all",e,1e-3,0.05,"no returned pose is the true one (%zu poses); R=%s t=%s",v.size(),vs(s.R).c_str(),vs(s.t).c_str()); }
    if(!same(v,ap::gp3p(B))||!same(v,ap::gp3p(B,iota(3)))||!same(v,ap::gp3p(A,pos))) R.fail("gp3p:overload","gp3p(subset/indices/default) differ");
  });
}

void monitor(Reporter&R){ p3p(R); p2p(R); p2pAngles(R); gp3p(R); }
