// P02  n-point absolute pose solvers: exact recovery, graceful degradation with noise
#include "scenes.hpp"
#include "long.hpp"
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
using namespace vf; using namespace opengv; namespace ap=opengv::absolute_pose;

static double err(const transformation_t&T,const AbsCase&q){ if(!fin(T)) return INFINITY; return (T.block<3,3>(0,0)-q.s.R).norm()+(T.col(3)-q.s.t).norm()/q.scale; }
static double best(const transformations_t&v,const AbsCase&q){ double e=INFINITY; for(auto&T:v) e=std::min(e,err(T,q)); return e; }
static int pickN(Rng&g,int c,int lo){ switch(c%6){ case 0: return lo; case 1: return lo+1; case 2: return lo+g.i(1,4); case 3: return g.i(10,20); case 4: return g.i(20,60); default: return c%24==5?g.i(100,300):g.i(8,16); } }
static void addNoise(Rng&g,AbsCase&q,double sg){ for(auto&f:q.s.f){ f+=sg*g.nv(); f/=f.norm(); } }
static const char* nclass(int n){ return n<=6?"n6":n<=9?"n7-9":n<=20?"n10-20":"large"; }
// is the flavour outside the claim of an algorithm?
// shares of noisy scenes whose error exceeds 30 (EPnP, GPnP) or 10 (UPnP) times the noise on the flavour of scene
static double pick(const std::string&fl,std::initializer_list<std::pair<const char*,double> > l,double d){ for(auto&x:l) if(fl==x.first) return x.second; return d; }
static double qE(const std::string&f){ return pick(f,{{"far",.52},{"narrow",.54},{"plane0",.52},{"front",.31},{"lattice",.31},{"uneven",.31},{"near",.02},{"shifted",.006}},.245); }
static double qG(const std::string&f){ return pick(f,{{"far",.42},{"front",.62},{"narrow",.84},{"near",.13},{"shifted",.015},{"lattice",.22}},.2); }
static double qU(const std::string&f){ return pick(f,{{"far",.54},{"front",.75},{"narrow",.88},{"plane0",.69},{"lattice",.1},{"uneven",.08},{"near",.005},{"shifted",.002}},.058); }
static void proper(Reporter&R,const char*alg,const transformation_t&T)
{ if(!fin(T)){ R.fail(str("%s:nonfinite",alg),"%s returned %s",alg,vs(T).c_str()); return; } double e=so3Err(T.block<3,3>(0,0)); R.err(str("%s:rotation",alg),e,1e-7,0,"%s returned no rotation: %s",alg,vs(T).c_str()); }

static void central(Reporter&R)
{
  for(auto&fl:absFlavours())
  R.each("central/"+fl,R.N(2500,40000),[&](Rng&g,int c)
  {
    int n=pickN(g,c,6); AbsCase q=makeAbsFlavour(g,fl,n,0); R.ev(Reporter::hs(fl)+c,q.s.t[0]);
    bool noisy=c%2; double sg=noisy?pow(10,g.u(-5,-2)):0; AbsCase z=q; if(noisy) addNoise(g,z,sg);
    // the scene at arbitrary positions of a larger data set
    int extra=c%3?g.i(1,6):0, m=n+extra; std::vector<int> pos=g.subset(m,n); bearingVectors_t f(m); points_t p(m);
    for(int k=0;k<m;k++){ f[k]=g.unit(); p[k]=10*q.scale*g.nv(); } for(int k=0;k<n;k++){ f[pos[k]]=z.s.f[k]; p[pos[k]]=z.s.p[k]; }
    ap::CentralAbsoluteAdapter A(f,p); std::string sf=std::string("/")+fl+(noisy?"/noise":"/exact"); bool pl=fl=="plane0";
   
    { transformation_t T=extra?ap::epnp(A,pos):ap::epnp(A); proper(R,"epnp",T); double e=err(T,q);
            if(!noisy) R.err("epnp:truth/"+fl,e,pl?1e-2:1e-4,pl?0.03:0.0008,"n=%d EPnP pose %s, true R=%s t=%s",n,vs(T).c_str(),vs(q.s.R).c_str(),vs(q.s.t).c_str());
      else { R.err("epnp:noise/"+fl,e/sg,100,pl||fl=="far"||fl=="narrow"?0.13:0.03,"n=%d EPnP error %.3g for noise %.3g",n,e,sg); R.cov(pl?"epnp planar":"epnp"); R.err("epnp:noise30/"+fl,e/sg,30,qE(fl),"n=%d error %.3g for noise %.3g",n,e,sg); } }
    { transformations_t v=extra?ap::upnp(A,pos):ap::upnp(A); for(auto&T:v) proper(R,"upnp",T); double e=best(v,q); R.cov("upnp solutions",v.size());
      if(!noisy) R.err("upnp:truth/"+fl,e,1e-6,0.0004,"n=%d none of the %zu UPnP poses is the true one R=%s t=%s",n,v.size(),vs(q.s.R).c_str(),vs(q.s.t).c_str());
      else { R.err("upnp:noise/"+fl,e/sg,100,pl?0.035:fl=="front"||fl=="narrow"?0.015:0.003,"n=%d best UPnP error %.3g for noise %.3g (%zu poses)",n,e,sg,v.size()); R.err("upnp:noise10/"+fl,e/sg,10,qU(fl),"n=%d error %.3g for noise %.3g",n,e,sg); }
      if(c<1) R.sample("central %s n=%d noise %.2g: %zu UPnP poses, best error %.2g",fl.c_str(),n,sg,v.size(),e); }
  });
}
static void noncentral(Reporter&R)
{
  for(auto&fl:absFlavours())
  R.each("noncentral/"+fl,R.N(2500,40000),[&](Rng&g,int c)
  {
    int n=pickN(g,c,6), cams=g.i(2,6); if(c%5==0) cams=n; AbsCase q=makeAbsFlavour(g,fl,n,cams,g.u(0.3,1)); R.ev(Reporter::hs(fl)+c+99,q.s.t[0]);
    bool noisy=c%2; double sg=noisy?pow(10,g.u(-5,-2)):0; AbsCase z=q; if(noisy) addNoise(g,z,sg);
    int extra=c%3?g.i(1,6):0, m=n+extra; std::vector<int> pos=g.subset(m,n); bearingVectors_t f(m); points_t p(m); std::vector<int> cc(m);
    for(int k=0;k<m;k++){ f[k]=g.unit(); p[k]=10*q.scale*g.nv(); cc[k]=g.i(cams); } for(int k=0;k<n;k++){ f[pos[k]]=z.s.f[k]; p[pos[k]]=z.s.p[k]; cc[pos[k]]=z.s.cc[k]; }
    ap::NoncentralAbsoluteAdapter A(f,cc,p,z.s.co,z.s.cr); std::string nc=nclass(n);
    { transformation_t T=extra?ap::gpnp(A,pos):ap::gpnp(A); proper(R,"gpnp",T); double e=err(T,q);
      if(fl=="plane0"||fl=="tiny") R.cov("gpnp planar or millimetre scene (no claim)"); else if(!noisy) R.err("gpnp:truth/"+fl,e,fl=="huge"?1e-3:1e-4,0.003,"n=%d cams=%d GPnP pose %s, true R=%s t=%s",n,cams,vs(T).c_str(),vs(q.s.R).c_str(),vs(q.s.t).c_str());
      else { R.err("gpnp:noise/"+fl,e/sg,100,fl=="narrow"?0.42:fl=="far"||fl=="front"?0.13:fl=="shifted"?0.015:0.06,"n=%d GPnP error %.3g for noise %.3g",n,e,sg); R.err("gpnp:noise30/"+fl,e/sg,30,qG(fl),"n=%d error %.3g for noise %.3g",n,e,sg); } }
    { transformations_t v=extra?ap::upnp(A,pos):ap::upnp(A); for(auto&T:v) proper(R,"upnp",T); double e=best(v,q);
      if(!noisy) R.err("gupnp:truth/"+fl,e,1e-6,0.0004,"n=%d none of the %zu UPnP poses is the true one R=%s t=%s",n,v.size(),vs(q.s.R).c_str(),vs(q.s.t).c_str());
      else { R.err("gupnp:noise/"+fl,e/sg,100,fl=="plane0"||fl=="front"||fl=="narrow"?0.015:0.003,"n=%d best UPnP error %.3g for noise %.3g (%zu poses)",n,e,sg,v.size()); R.err("gupnp:noise10/"+fl,e/sg,10,qU(fl),"n=%d error %.3g for noise %.3g",n,e,sg); } }
  });
}
// UPnP is also a minimal solver: three to five correspondences, all solutions are wanted
static void few(Reporter&R)
{
  for(auto&fl:absFlavours()) for(int rig=0;rig<3;rig++)
  R.each(std::string("few/")+fl+(rig?rig==1?"/rig":"/wide":""),R.N(500,10000),[&](Rng&g,int c)
  {
    int n=3+c%3,cams=rig?g.i(2,5):0; AbsCase q; int guard=0; do q=makeAbsFlavour(g,fl,n,cams,rig==2?g.u(1,4):g.u(0.3,1)); while(guard++<500&&(triangleQuality(q.s.p[0],q.s.p[1],q.s.p[2])<0.15)); R.ev(Reporter::hs(fl)+c+7*rig,q.s.t[0]);
    int extra=c%4?g.i(1,6):0,m=n+extra; std::vector<int> pos=g.subset(m,n); bearingVectors_t f(m); points_t p(m); std::vector<int> cc(m); for(int k=0;k<m;k++){ f[k]=g.unit(); p[k]=10*q.scale*g.nv(); cc[k]=rig?g.i(cams):0; } for(int k=0;k<n;k++){ f[pos[k]]=q.s.f[k]; p[pos[k]]=q.s.p[k]; if(rig) cc[pos[k]]=q.s.cc[k]; }
    ap::CentralAbsoluteAdapter A(f,p); ap::NoncentralAbsoluteAdapter B(f,cc,p,q.s.co,q.s.cr); const ap::AbsoluteAdapterBase&D=rig?(const ap::AbsoluteAdapterBase&)B:A; transformations_t v=extra?ap::upnp(D,pos):ap::upnp(D); for(auto&T:v) proper(R,"upnp",T); double e=best(v,q); R.cov(str("upnp with %d points: solutions",n),v.size());
    R.err(str("upnp:%s%d/%s",rig?rig==1?"rig":"wide":"central",n,fl.c_str()),e,n==3?1e-4:1e-6,n==3?0.015:0.0005,"n=%d none of the %zu UPnP poses is the true one R=%s t=%s",n,v.size(),vs(q.s.R).c_str(),vs(q.s.t).c_str());
  });
}
void monitor(Reporter&R){ few(R); central(R); noncentral(R);  longAbs(R,{{"epnp",2,12,1e-4,0.02,0.1,2000,false},{"upnp",2,8,1e-6,0.01,0.1,5000,false},{"upnp",2,8,1e-6,0.01,0.1,5000,true},{"gpnp",2,12,1e-4,0.02,0.1,2000,true}},200,4000); }
