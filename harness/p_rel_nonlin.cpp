// P07  non-linear relative pose refinement
#include "refine.hpp"
#include "long.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
using namespace vf; using namespace opengv; namespace rp=opengv::relative_pose;
static double q1(const char*kind,const std::string&fl,int what);
// kind: c (central), x (rig, correspondences across cameras), s (rig, every point seen twice by one camera)
static void one(Reporter&R,char kind,const std::string&fl,Rng&g,int c)
{
  const char ks[2]={kind,0}; int n=c%5==0?6:c%5==1?g.i(7,12):c%5==2?g.i(30,60):g.i(8,25); if(kind!='c'&&n<10) n+=4; bool few=c%23==22; if(few) n=g.i(3,5); int cams=kind=='c'?0:c%9==8?g.i(7,30):g.i(3,6);
  RelCase q; int guard=0; bool bad; do { q=makeRelFlavour(g,fl,n,cams,g.u(0.3,1),kind=='s'); bad=M_PI-angleOf(q.s.R)<0.3; for(int k=0;k<n&&!bad;k++){ RelScene&s=q.s; if(vecAngle(s.cr[s.c1[k]]*s.f1[k],s.R*s.cr[s.c2[k]]*s.f2[k])<1e-3) bad=true; } } while(bad&&guard++<100);
  if(bad){ R.cov("skipped: no parallax or half turn"); return; }
  RelScene&s=q.s; R.ev(Reporter::hs(fl)+c+kind,s.t[0]); int mode=c%4; double sg=mode>=2?pow(10,g.u(-4,-2.3)):0; for(auto*f:{&s.f1,&s.f2}) for(auto&x:*f){ x+=sg*g.nv(); x/=x.norm(); }
  int extra=c%3?g.i(1,6):0,m=n+extra,C=(int)s.co.size(); std::vector<int> pos=g.subset(m,n),ca(m),cb(m); bearingVectors_t a(m),b(m);
  for(int k=0;k<m;k++){ a[k]=g.unit(); b[k]=g.unit(); ca[k]=g.i(C); cb[k]=g.i(C); } for(int k=0;k<n;k++){ int p=pos[k]; a[p]=s.f1[k]; b[p]=s.f2[k]; ca[p]=s.c1[k]; cb[p]=s.c2[k]; }
  double pert=mode==0?0:mode==1?g.u(0.001,0.02):g.u(0.001,0.05),tn=s.t.norm(); Matrix3d R0=s.R*g.rotAxis(g.unit(),pert); Vector3d t0=s.t+pert*tn*g.unit();
  transformation_t T; bool idx=extra>0||c%2;
  if(kind=='c'){ rp::CentralRelativeAdapter A(a,b); A.sett12(t0); A.setR12(R0); T=idx?rp::optimize_nonlinear(A,pos):rp::optimize_nonlinear(A); }
  else { rp::NoncentralRelativeAdapter A(a,b,ca,cb,s.co,s.cr); A.sett12(t0); A.setR12(R0); T=idx?rp::optimize_nonlinear(A,pos):rp::optimize_nonlinear(A); }
  if(!fin(T)||so3Err(T.block<3,3>(0,0))>1e-9){ R.fail(str("%s:improper",ks),"refined pose is no rigid transformation: %s",vs(T).c_str()); return; }
  Matrix3d Rr=T.block<3,3>(0,0); Vector3d tr=T.col(3); Resid cost=[&](const Matrix3d&Rx,const Vector3d&tx){ VectorXd v(n); for(int k=0;k<n;k++) v[k]=relDist(s,k,Rx,tx); return v; };
  double c0=sq(cost(R0,t0)),c1=sq(cost(Rr,tr)),e=(Rr-s.R).norm()+(kind=='c'?(tr/tr.norm()-s.t/tn).norm():(tr-s.t).norm()/tn);
  R.cov(str("%s mode %d",ks,mode));
  if(mode==0) R.err(str("%s:fixpoint/",ks)+fl,e,1e-6,q1(ks,fl,0),"refinement started at the exact pose moved away by %.3g: %s",e,vs(T).c_str());
  if(mode==1&&!few) R.err(str("%s:converge/",ks)+fl,e,5e-3,q1(ks,fl,1),"started %.3g off the exact pose, ended %.3g off (cost %.3g -> %.3g), n=%d",pert,e,c0,c1,n);
  if(c1>c0*(1+1e-5)+1e-24) R.fail(str("%s:worse",ks),"cost of the selected correspondences rose from %.17g to %.17g (n=%d noise %.3g start off by %.3g, %s)",c0,c1,n,sg,pert,fl.c_str());
  if(few) R.cov("fewer correspondences than parameters");
  if(mode>=2&&!few)
  { double ref=n*pow(sg,4),c2=minimise(cost,Rr,tr,tn); 
    R.err(str("%s:optimal/",ks)+fl,(c1-c2)/(c1+1e-3*ref),0.02,q1(ks,fl,2),"cost %.6g can still be lowered to %.6g (n=%d noise %.3g, start off by %.3g)",c1,c2,n,sg,pert); }
  if(c<1) R.sample("%s %s n=%d noise %.2g start off %.2g: cost %.3g -> %.3g, error %.2g",ks,fl.c_str(),n,sg,pert,c0,c1,e);
}
void monitor(Reporter&R)
{
  static const char*kn[]={"central","cross","same"};
  for(int k=0;k<3;k++) for(auto&fl:relFlavours()) R.each(str("%s/",kn[k])+fl,R.N(600,10000),[&](Rng&g,int c){ one(R,"cxs"[k],fl,g,c); });
  longRel(R,{{"rel_nonlin",2,12,1e-2,0.05,0.01,1500,false},{"rel_nonlin",3,16,1e-2,0.05,0.01,1500,true}},200,3000);
}
// share of refinements that stop early: the differentiation step is coarse where
// a parameter is close to zero, and the scale of a rig is hardly observable
// when no point is seen by two cameras
static double q1(const char*kind,const std::string&fl,int what)
{
  char k=kind[0]; bool z=fl=="norot"||fl=="smallrot";
  if(what==0) return 0;
  if(what==1)
  { if(k=='c') return fl=="smallbase"?.32:fl=="forward"?.08:fl=="uneven"?.03:.015;
    if(k=='x') return fl=="smallbase"?.1:fl=="uneven"?.04:.02;
    return z?1:fl=="forward"||fl=="sideways"||fl=="smallbase"||fl=="far"||fl=="uneven"?.3:.1; }
  if(z) return k=='s'?.7:.5; if(fl=="sideways"||fl=="forward") return .45; if(fl=="smallbase"||fl=="rotaxis") return .26; if(fl=="uneven"||fl=="far") return k=='c'&&fl=="far"?.03:.12; if(fl=="front") return .08; return .03;
}
