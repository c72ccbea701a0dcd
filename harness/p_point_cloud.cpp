// P09  point cloud alignment
#include "refine.hpp"
#include "long.hpp"
#include <opengv/point_cloud/methods.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
using namespace vf; using namespace opengv; namespace pc=opengv::point_cloud;
// Horn's quaternion method: the optimum by a route different from the library's
static double horn(const points_t&a,const points_t&b,Matrix3d&R,Vector3d&t)
{
  int n=(int)a.size(); Vector3d ca(0,0,0),cb(0,0,0); for(int k=0;k<n;k++){ ca+=a[k]/n; cb+=b[k]/n; }
  Matrix3d S=Matrix3d::Zero(); for(int k=0;k<n;k++) S+=(b[k]-cb)*(a[k]-ca).transpose();
  Eigen::Matrix4d N; N<<S.trace(),S(1,2)-S(2,1),S(2,0)-S(0,2),S(0,1)-S(1,0), S(1,2)-S(2,1),S(0,0)-S(1,1)-S(2,2),S(0,1)+S(1,0),S(2,0)+S(0,2), S(2,0)-S(0,2),S(0,1)+S(1,0),S(1,1)-S(0,0)-S(2,2),S(1,2)+S(2,1), S(0,1)-S(1,0),S(2,0)+S(0,2),S(1,2)+S(2,1),S(2,2)-S(0,0)-S(1,1);
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> E(N); Eigen::Vector4d q=E.eigenvectors().col(3); R=Eigen::Quaterniond(q[0],q[1],q[2],q[3]).toRotationMatrix(); t=ca-R*cb;
  double c=0; for(int k=0;k<n;k++) c+=(a[k]-R*b[k]-t).squaredNorm(); return c;
}
static double sse(const points_t&a,const points_t&b,const transformation_t&T){ double c=0; for(size_t k=0;k<a.size();k++) c+=(a[k]-T.block<3,3>(0,0)*b[k]-T.col(3)).squaredNorm(); return c; }

void monitor(Reporter&R)
{
  const char*fls[]={"std","three","planar","mirrored","shifted","tiny","huge","identity","rot180","rotaxis","smallrot","collinear","coincident","unrelated","lattice","flat","square"};
  for(std::string fl: fls) R.each("cloud/"+fl,R.N(4000,120000),[&](Rng&g,int c)
  {
    int n=fl=="three"?3:c%4==0?3+g.i(3):c%4==1?g.i(30,120):g.i(4,20); double s=fl=="tiny"?1e-3:fl=="huge"?1e3:1; Matrix3d Rt=g.rot(); Vector3d t=s*g.box(3);
    if(fl=="identity"){ Rt=Matrix3d::Identity(); t=Vector3d::Zero(); } if(fl=="rot180") Rt=g.rotAxis(g.unit(),M_PI); if(fl=="rotaxis") Rt=axisRot(g); if(fl=="smallrot") Rt=g.rotMax(1e-3);
    Vector3d sh(0,0,0); if(fl=="shifted") sh=1000*g.unit(); Matrix3d B=g.rot(); Vector3d dir=g.unit();
    points_t b(n),a(n);
    for(int k=0;k<n;k++)
    { Vector3d x=s*2*g.nv();
      if(fl=="planar"){ x=B*Vector3d(x[0],x[1],0); } if(fl=="flat"){ x[2]=0; } if(fl=="collinear") x=dir*x[0]; if(fl=="coincident") x=Vector3d(1,2,3); if(fl=="lattice") x=Vector3d(g.i(-4,4),g.i(-4,4),g.i(-4,4)); if(fl=="square") x=B*Vector3d(k%2?1:-1,(k/2)%2?1:-1,(k/4)%2?1:-1);
      b[k]=x+sh; a[k]=Rt*b[k]+t; }
    if(fl=="mirrored") for(auto&x:a) x[2]=-x[2]; if(fl=="unrelated") for(auto&x:a) x=2*g.nv();
    double sg=c%2?s*pow(10,g.u(-6,0)):0; for(auto&x:a) x+=sg*g.nv();
    R.ev(Reporter::hs(fl)+c,a[0][0]+b[0][1]);
    int extra=c%3?g.i(1,6):0,m=n+extra; std::vector<int> pos=g.subset(m,n); points_t pa(m),pb(m); for(int k=0;k<m;k++){ pa[k]=30*s*g.nv(); pb[k]=30*s*g.nv(); } for(int k=0;k<n;k++){ pa[pos[k]]=a[k]; pb[pos[k]]=b[k]; }
    pc::PointCloudAdapter A(pa,pb); transformation_t T=extra||c%2?pc::threept_arun(A,pos):pc::threept_arun(A);
    if(!fin(T)||so3Err(T.block<3,3>(0,0))>1e-9){ R.fail("arun:improper","result is no rigid transformation: %s (%s, n=%d)",vs(T).c_str(),fl.c_str(),n); return; }
    Matrix3d Rh; Vector3d th; double opt=horn(a,b,Rh,th),got=sse(a,b,T); Vector3d ca(0,0,0); for(auto&x:a) ca+=x/n; Vector3d cb(0,0,0); for(auto&x:b) cb+=x/n;
    double ext=0; for(auto&x:a) ext+=(x-ca).squaredNorm(); for(auto&x:b) ext+=(x-cb).squaredNorm(); double mag=ca.squaredNorm()+cb.squaredNorm();
    R.err("arun:optimal/"+fl,(sqrt(got)-sqrt(opt))/sqrt(ext+1e-6*mag+1e-300),1e-9,0,"sum of squared distances %.17g, optimum %.17g (n=%d)",got,opt,n);
    bool unique=fl!="collinear"&&fl!="coincident"&&fl!="mirrored"&&fl!="unrelated"; if(fl=="lattice"||fl=="square"||n<=3){ Matrix3d C=Matrix3d::Zero(); for(auto&x:b) C+=(x-cb)*(x-cb).transpose(); Eigen::SelfAdjointEigenSolver<Matrix3d> E(C); if(E.eigenvalues()[1]<1e-3*E.eigenvalues()[2]) unique=false; }
    double sp=0; for(auto&x:b) sp=std::max(sp,(x-cb).norm()); Matrix3d C=Matrix3d::Zero(); for(auto&x:b) C+=(x-cb)*(x-cb).transpose(); Eigen::SelfAdjointEigenSolver<Matrix3d> E(C); double k2=E.eigenvalues()[1]/E.eigenvalues()[2];
    if(sg==0&&unique&&k2>1e-4) R.err("arun:truth/"+fl,((T.block<3,3>(0,0)-Rt).norm()+(T.col(3)-t).norm()/(sp+cb.norm()+t.norm()))*k2,fl=="shifted"?1e-10:1e-11,0,"%s instead of R=%s t=%s (n=%d)",vs(T).c_str(),vs(Rt).c_str(),vs(t).c_str(),n);
    if(c<1) R.sample("%s n=%d noise %.2g: SSE %.6g, optimum %.6g",fl.c_str(),n,sg,got,opt);
    // non-linear alignment
    if(n<6||!unique||k2<0.02||M_PI-angleOf(Rh)<0.3||fl=="shifted") { R.cov("nonlinear: skipped (too few points, degenerate, near half turn or far from the origin)"); return; }
    int mode=g.i(3); double pert=mode==0?0:mode==1?g.u(0.001,0.05):g.u(0.05,0.4); Matrix3d R0=(sg==0?Rt:Rh)*g.rotAxis(g.unit(),pert); Vector3d t0=(sg==0?t:th)+pert*s*g.nv(); if(M_PI-angleOf(R0)<0.15) return;
    A.sett12(t0); A.setR12(R0); transformation_t N=extra||c%2?pc::optimize_nonlinear(A,pos):pc::optimize_nonlinear(A);
    if(!fin(N)||so3Err(N.block<3,3>(0,0))>1e-9){ R.fail("nonlinear:improper","result is no rigid transformation: %s",vs(N).c_str()); return; }
    transformation_t T0; T0.block<3,3>(0,0)=R0; T0.col(3)=t0; double c0=sse(a,b,T0),c1=sse(a,b,N);
    if(c1>c0*(1+1e-9)+1e-20*ext) R.fail("nonlinear:worse","sum of squared distances rose from %.17g to %.17g (n=%d, %s)",c0,c1,n,fl.c_str());
    if(sg==0) R.err(str("nonlinear:exact%d%s/",mode,n<9?"few":n<20?"mid":"many")+fl,sqrt(c1/ext),mode==0?1e-9:mode==1?3e-4:1e-4,mode==0?0:mode==1?2e-4:fl=="planar"||fl=="flat"?0.012:n<9?0.0025:0.0006,"noise-free clouds: rms residual share %.3g after starting %.3g off (n=%d)",sqrt(c1/ext),pert,n);
    else { R.err(str("nonlinear:optimum%d%s/",mode,n<9?"few":n<20?"mid":"many")+fl,(c1-opt)/(opt+1e-12*ext),mode?0.05:1e-7,mode==0?0:n<9?0.31:n<20?0.235:0.19,"sum of squared distances %.9g, optimum %.9g (start off by %.3g, n=%d)",c1,opt,pert,n); if(mode) R.err(str("nonlinear:coarse%d%s/",mode,n<9?"few":n<20?"mid":"many")+fl,(c1-opt)/(opt+1e-12*ext),n<9?30:n<20?3:1,n<9?0.005:n<20?0.006:0.0015,"sum of squared distances %.9g, optimum %.9g (start off by %.3g, n=%d)",c1,opt,pert,n); }
    R.cov("nonlinear runs");
  });
  longPc(R,{{"threept_arun",2,4,1e-7,0.005,0,5000,false},{"pc_nonlin",1,6,1e-2,0.02,0.02,1500,false}},400,8000);
}
