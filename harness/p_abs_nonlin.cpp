// P03  non-linear absolute pose refinement
#include "refine.hpp"
#include "long.hpp"
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
using namespace vf; using namespace opengv; namespace ap=opengv::absolute_pose;

// tolerated share of refinements that stop early (numerical differentiation is
// coarse where rotation or position parameters are close to zero)
static double qf(const std::string&f,bool best)
{ if(f=="idpose") return best?.27:.40; if(f=="idrot") return best?.17:.30; if(f=="smallrot") return best?.11:.23; if(f=="rotaxis") return best?.07:.14;
  if(f=="far"||f=="front"||f=="plane0"||f=="narrow") return best?.08:.17; return best?.005:.009; }
static void one(Reporter&R,bool central,const std::string&fl,Rng&g,int c)
{
  int n=(c/5)%5==4?g.i(12,40):c%5==0?6:c%5==1?g.i(7,12):c%5==2?g.i(30,80):g.i(8,25); bool few=c%23==22; if(few) n=g.i(3,5); int cams=central?0:c%9==8?g.i(6,40):g.i(2,5); AbsCase q; int guard=0;
  do q=makeAbsFlavour(g,fl,n,cams,g.u(0.3,1)); while(guard++<50&&M_PI-angleOf(q.s.R)<0.3);
  if(M_PI-angleOf(q.s.R)<0.3){ R.cov("half turn (Cayley singularity, no claim)"); return; }
  R.ev(Reporter::hs(fl)+c+(central?7:0),q.s.t[0]); const char*kind=central?"c":"nc";
  int mode=(c/5)%5; double sg=mode>=2?pow(10,g.u(-4,-2)):0; for(auto&f:q.s.f){ f+=sg*g.nv(); f/=f.norm(); }
  if(mode==4) for(int k=g.i(1,2);k>=0;k--) q.s.f[g.i(n)]=g.unit(); // gross outliers: the cost counts them in full
  int extra=c%3?g.i(1,6):0,m=n+extra; std::vector<int> pos=g.subset(m,n); bearingVectors_t f(m); points_t p(m); std::vector<int> cc(m);
  for(int k=0;k<m;k++){ f[k]=g.unit(); p[k]=10*q.scale*g.nv(); cc[k]=g.i((int)q.s.co.size()); } for(int k=0;k<n;k++){ f[pos[k]]=q.s.f[k]; p[pos[k]]=q.s.p[k]; cc[pos[k]]=q.s.cc[k]; }
  double pert=mode==0?0:mode==1?g.u(0.001,0.02):mode==2||mode==4?g.u(0.001,0.03):g.u(0.03,0.4);
  // depth of the nearest point bounds a meaningful shift of the start
  double depth=INFINITY; for(auto&x:q.s.p) depth=std::min(depth,(x-q.s.t).norm());
  Matrix3d R0=q.s.R*g.rotAxis(g.unit(),pert); Vector3d t0=q.s.t+pert*depth*0.5*g.unit();
  if(M_PI-angleOf(R0)<0.1){ R.cov("half turn (Cayley singularity, no claim)"); return; }
  transformation_t T; bool idx=extra>0||c%2;
  if(central){ ap::CentralAbsoluteAdapter A(f,p); A.sett(t0); A.setR(R0); T=idx?ap::optimize_nonlinear(A,pos):ap::optimize_nonlinear(A); }
  else { ap::NoncentralAbsoluteAdapter A(f,cc,p,q.s.co,q.s.cr); A.sett(t0); A.setR(R0); T=idx?ap::optimize_nonlinear(A,pos):ap::optimize_nonlinear(A); }
  if(!fin(T)||so3Err(T.block<3,3>(0,0))>1e-9) { R.fail(str("%s:improper",kind),"refined pose is no rigid transformation: %s",vs(T).c_str()); return; }
  Matrix3d Rr=T.block<3,3>(0,0); Vector3d tr=T.col(3);
  Resid cost=[&](const Matrix3d&Rx,const Vector3d&tx){ VectorXd v(n); for(int k=0;k<n;k++) v[k]=absDist(q.s,k,Rx,tx); return v; };
  double c0=sq(cost(R0,t0)), c1=sq(cost(Rr,tr)); double e=(Rr-q.s.R).norm()+(tr-q.s.t).norm()/q.scale;
  R.cov(str("%s mode %d",kind,mode));
  if(mode==0) R.err(str("%s:fixpoint/",kind)+fl,e,1e-5,0,"refinement started at the exact pose moved away by %.3g: %s",e,vs(T).c_str());
  if(mode==1&&!few) R.err(str("%s:converge/",kind)+fl,e,1e-2,0.0004,"started %.3g off the exact pose, ended %.3g off (cost %.3g -> %.3g), n=%d",pert,e,c0,c1,n);
  if(c1>c0*(1+1e-9)+4e-15*sqrt(n*c0)+1e-25) R.fail(str("%s:worse",kind),"cost of the selected correspondences rose from %.17g to %.17g (n=%d noise %.3g start off by %.3g, %s)",c0,c1,n,sg,pert,fl.c_str());
  if(few) R.cov("fewer correspondences than parameters");
  if(mode>=2&&!few)
  {
    double ref=n*pow(sg,4); double c2=minimise(cost,Rr,tr,depth); R.mx(str("%s cost share left",kind),c1>0?(c1-c2)/(c1+1e-3*ref):0);
    R.err(str("%s:optimal%d/",kind,mode)+fl,(c1-c2)/(c1+1e-3*ref),0.01,mode==4?(fl=="narrow"?.30:fl=="front"||fl=="plane0"?.25:fl=="far"?.12:.05):qf(fl,0),"cost %.6g can still be lowered to %.6g (n=%d noise %.3g, start off by %.3g)",c1,c2,n,sg,pert);
    if(mode==4) return;
    Matrix3d Rs; Vector3d ts; double c3=minimise(cost,q.s.R,q.s.t,depth,30,&Rs,&ts);
    R.err(str("%s:best%d/",kind,mode)+fl,(c1-c3)/(c3+1e-3*ref),0.05,qf(fl,1),"cost %.6g, an independent minimiser reaches %.6g (n=%d noise %.3g, start off by %.3g)",c1,c3,n,sg,pert);
  }
  if(c<1) R.sample("%s %s n=%d noise %.2g start off %.2g: cost %.3g -> %.3g, error %.2g",kind,fl.c_str(),n,sg,pert,c0,c1,e);
}
void monitor(Reporter&R)
{
  for(int k=0;k<2;k++) for(auto&fl:absFlavours()) R.each(str("%s/",k?"noncentral":"central")+fl,R.N(1200,15000),[&](Rng&g,int c){ one(R,!k,fl,g,c); });
  longAbs(R,{{"abs_nonlin",2,8,1e-2,0.02,0.01,2000,false},{"abs_nonlin",2,8,1e-2,0.02,0.01,2000,true}},300,4000);
}
