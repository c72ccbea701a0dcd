// P04  essential matrix solvers
#include "scenes.hpp"
#include "long.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
using namespace vf; using namespace opengv; namespace rp=opengv::relative_pose;

static double kinv(const Matrix3d&E){ Eigen::JacobiSVD<Matrix3d> S(E); Vector3d s=S.singularValues(); return ((s[0]-s[1])+s[2])/s[0]; }
static bool same(const Matrix3d&a,const Matrix3d&b){ return !memcmp(a.data(),b.data(),sizeof(double)*9); }
template<class V> static bool sameV(const V&a,const V&b){ if(a.size()!=b.size()) return false; for(size_t k=0;k<a.size();k++) if(!same(a[k],b[k])) return false; return true; }
static bool sameC(const complexEssentials_t&a,const complexEssentials_t&b){ if(a.size()!=b.size()) return false; for(size_t k=0;k<a.size();k++) if(memcmp(a[k].data(),b[k].data(),sizeof(std::complex<double>)*9)) return false; return true; }
static double qT(const char*alg,const std::string&fl);

struct Data { RelCase q; bearingVectors_t a,b; std::vector<int> pos; int n; };
static Data make(Rng&g,const std::string&fl,int n,int c)
{
  Data d; d.n=n; std::string f0=fl=="planar"?"std":fl; 
  // well-posed: at least a little parallax in most correspondences and no (near) coincident bearings
  int guard=0; bool bad; do { d.q=makeRelFlavour(g,f0,n,0); if(c%3==0&&f0=="std") { RelScene z=d.q.s; z.R=g.rot(); points_t P=z.p; z.p.clear(); z.f1.clear(); z.f2.clear(); z.c1.clear(); z.c2.clear(); for(auto&x:P) z.add(x,0,0); d.q.s=z; }
    if(fl=="planar"){ RelScene z=d.q.s; Vector3d nn=g.unit(); z.p.clear(); z.f1.clear(); z.f2.clear(); z.c1.clear(); z.c2.clear(); for(int k=0;k<n;k++){ Vector3d u; do u=g.unit(); while(u.dot(nn)<0.4); z.add(4*u/u.dot(nn),0,0); } d.q.s=z; }
    bad=false; for(int k=0;k<n&&!bad;k++){ double p=vecAngle(d.q.s.f1[k],d.q.s.R*d.q.s.f2[k]); if(p<1e-4) bad=true; for(int j=0;j<k&&!bad;j++) if(vecAngle(d.q.s.f1[k],d.q.s.f1[j])<0.02) bad=true; } } while(bad&&guard++<100);
  int m=n+(c%3?g.i(1,6):0); d.pos=g.subset(m,n); d.a.resize(m); d.b.resize(m); for(int k=0;k<m;k++){ d.a[k]=g.unit(); d.b[k]=g.unit(); } for(int k=0;k<n;k++){ d.a[d.pos[k]]=d.q.s.f1[k]; d.b[d.pos[k]]=d.q.s.f2[k]; }
  return d;
}
static void judge(Reporter&R,const std::string&alg,const std::string&fl,const Data&d,const essentials_t&v,double tol,bool five,size_t lim)
{
  Matrix3d E=d.q.s.E(); double e=INFINITY; for(auto&x:v) e=std::min(e,essErr(x,E));
  R.err(alg+":truth/"+fl,e,tol,qT(alg.c_str(),fl),"none of the %zu matrices is the true one; R=%s t=%s n=%d",v.size(),vs(d.q.s.R).c_str(),vs(d.q.s.t).c_str(),d.n);
  // an ill-conditioned elimination (one of 1e5 planar scenes) may spoil the polynomial, and with it the number of its brackets
  bool many=lim&&v.size()>lim,inf=false; for(auto&x:v) if(!fin(x)||x.norm()<1e-300) inf=true;
  if(alg.rfind("nister",0)==0) { R.err(alg+":count/"+fl,many?v.size():0,lim+0.5,1e-4,"%zu solutions, at most %zu exist",v.size(),lim); R.err(alg+":finite/"+fl,inf,0.5,1e-4,"non-finite solution"); if(many) return; }
  else { if(many) R.fail(alg+":count","%zu solutions, at most %zu exist",v.size(),lim); if(inf) R.fail(alg+":nonfinite","non-finite or zero solution (%s)",fl.c_str()); }
  for(auto&x:v)
  { if(!fin(x)||x.norm()<1e-300) continue;
    double r=0; for(int k=0;k<d.n;k++) r=std::max(r,fabs(d.q.s.f1[k].dot(x*d.q.s.f2[k])));
    if(alg.back()!='N') R.err(alg+":epipolar",r/x.norm(),1e-6,0.0005,"epipolar residual of a solution (%s, n=%d)",fl.c_str(),d.n);
    if(five) R.err(alg+":valid/"+fl,kinv(x),1e-4,qT(alg.c_str(),fl),"solution is no essential matrix: %s",vs(x).c_str());
    else R.err(alg+":rank",fabs((x/x.norm()).determinant()),1e-7,0.0005,"solution has determinant %.3g: %s",(x/x.norm()).determinant(),vs(x).c_str()); }
  R.cov(alg+" solutions",v.size());
}
static double qT(const char*alg,const std::string&fl)
{
  std::string a=alg;
  if(a=="stewenius"||a=="steweniusN") return 0.001;
  if(a=="nister"||a=="nisterN") return fl=="smallbase"?0.05:0.004;
  if(a=="kneip") return fl=="uneven"||fl=="forward"?0.2:fl=="sideways"||fl=="front"?0.16:fl=="smallrot"||fl=="norot"?0.1:0.06;
  return a=="seven7"?0.005:0.001;
}
void monitor(Reporter&R)
{
  std::vector<std::string> fls=relFlavours(); fls.push_back("planar");
  for(auto&fl:fls) R.each("five/"+fl,R.N(500,12000),[&](Rng&g,int c)
  {
    int n=5; if(c%10==9) n=g.i(6,20); Data d=make(g,fl,n,c); R.ev(Reporter::hs(fl)+c,d.q.s.t[0]); rp::CentralRelativeAdapter A(d.a,d.b); bool all=(int)d.a.size()==n&&c%2;
    if(all) for(int k=0;k<n;k++) d.pos[k]=k; bearingVectors_t a5=d.a,b5=d.b; if(all){ a5=d.q.s.f1; b5=d.q.s.f2; } rp::CentralRelativeAdapter B(a5,b5); rp::CentralRelativeAdapter&X=all?B:A;
    { complexEssentials_t cs=all?rp::fivept_stewenius(X):rp::fivept_stewenius(X,d.pos); essentials_t v; double ep=0; 
      for(auto&z:cs){ Matrix3d re=z.real(),im=z.imag(); double nz=sqrt(re.squaredNorm()+im.squaredNorm()); if(!fin(re)||!fin(im)){ R.fail("stewenius:nonfinite","solution %s",vs(re).c_str()); continue; }
        for(int k=0;k<n;k++) ep=std::max(ep,std::hypot(d.q.s.f1[k].dot(re*d.q.s.f2[k]),d.q.s.f1[k].dot(im*d.q.s.f2[k]))/nz); if(im.norm()<1e-7*nz) v.push_back(re); }
      if(n==5) R.err("stewenius:epipolarC",ep,1e-6,0.0005,"epipolar residual of a complex solution"); if(cs.size()>10) R.fail("stewenius:count","%zu solutions",cs.size());
      if(n==5||fl!="planar") judge(R,n==5?"stewenius":"steweniusN",fl,d,v,1e-4,true,10); if(!sameC(cs,rp::fivept_stewenius(A,all?iota(n):d.pos))&&!all) R.fail("stewenius:repeat","two calls differ"); }
    { essentials_t v=all?rp::fivept_nister(X):rp::fivept_nister(X,d.pos); judge(R,n==5?"nister":"nisterN",fl,d,v,1e-4,true,10); }
    if(n==5&&fl!="planar"&&fl!="smallbase"){ rotations_t v=rp::fivept_kneip(X,all?iota(n):d.pos); double e=INFINITY; for(auto&x:v) e=std::min(e,rotErr(x,d.q.s.R)); 
      R.err("kneip:truth/"+fl,e,1e-3,qT("kneip",fl),"none of the %zu rotations is the true one %s",v.size(),vs(d.q.s.R).c_str());
      for(auto&x:v) if(!fin(x)) R.fail("kneip:nonfinite","rotation %s",vs(x).c_str()); else R.err("kneip:rotation",so3Err(x),1e-2,0.001,"no rotation matrix: %s",vs(x).c_str()); R.cov("kneip solutions",v.size()); }
  });
  for(auto&fl:relFlavours()) R.each("linear/"+fl,R.N(1500,40000),[&](Rng&g,int c)
  {
    int n=c%4==0?7:c%4==1?8:g.i(8,30); Data d=make(g,fl,n,c); R.ev(Reporter::hs(fl)+c+7,d.q.s.t[0]); bool all=(int)d.a.size()==n; rp::CentralRelativeAdapter A(d.a,d.b);
    bearingVectors_t a=d.a,b=d.b; if(all){ a=d.q.s.f1; b=d.q.s.f2; } rp::CentralRelativeAdapter B(a,b); const rp::CentralRelativeAdapter&X=all?B:A; std::vector<int> ix=all?iota(n):d.pos;
    essentials_t s=all?rp::sevenpt(X):rp::sevenpt(X,ix); judge(R,n==7?"seven7":"seven",fl,d,s,n==7?1e-4:1e-6,false,3);
    if(n>=8){ essentials_t v; v.push_back(all?rp::eightpt(X):rp::eightpt(X,ix)); judge(R,n==8?"eight8":"eight",fl,d,v,1e-6,false,1); 
      // with noisy data the returned matrix has rank two and its residual stays in proportion to the noise
    }
  });
  longRel(R,{{"sevenpt",3,12,1e-4,0.01,0,3000,false},{"eightpt",3,12,1e-4,0.01,0,3000,false},{"fivept_nister",2,12,1e-4,0.02,0,3000,false},{"fivept_stewenius",2,12,1e-4,0.02,0,3000,false}},200,4000);
}
