// P08  triangulation
#include "refine.hpp"
#include <opengv/triangulation/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
using namespace vf; using namespace opengv; namespace rp=opengv::relative_pose; namespace tr=opengv::triangulation;

static Eigen::Matrix4d algebraic(const Vector3d&f1,const Vector3d&f2,const Matrix3d&R,const Vector3d&t)
{ Eigen::Matrix<double,3,4> P,Q; P<<Matrix3d::Identity(),Vector3d::Zero(); Q<<R.transpose(),-(R.transpose()*t); Eigen::Matrix4d A;
  A.row(0)=f1[0]*P.row(2)-f1[2]*P.row(0); A.row(1)=f1[1]*P.row(2)-f1[2]*P.row(1); A.row(2)=f2[0]*Q.row(2)-f2[2]*Q.row(0); A.row(3)=f2[1]*Q.row(2)-f2[2]*Q.row(1); return A; }

void monitor(Reporter&R)
{
  std::vector<std::string> fls=relFlavours(); fls.push_back("axis1"); fls.push_back("axis2"); fls.push_back("behind"); fls.push_back("lattice"); fls.push_back("lowparallax"); fls.push_back("reversed"); fls.push_back("skew");
  for(auto&fl:fls) R.each("tri/"+fl,R.N(6000,200000),[&](Rng&g,int c)
  {
    RelCase q; Vector3d X; double par; int guard=0; double scale=1; Matrix3d Rt; Vector3d t; Vector3d f1,f2;
    do {
      bool special=fl=="axis1"||fl=="axis2"||fl=="behind"||fl=="lattice"||fl=="lowparallax"||fl=="reversed"||fl=="skew";
      q=makeRelFlavour(g,special?"std":fl,1,0); scale=q.scale; Rt=q.s.R; t=q.s.t; X=q.s.p[0];
      if(c%3==0&&fl!="norot"&&fl!="smallrot"&&fl!="rotaxis") Rt=g.rot();
      if(fl=="axis1"){ Vector3d e=Vector3d::Zero(); e[g.i(3)]=g.p(.5)?1:-1; X=g.u(2,8)*e; }
      if(fl=="axis2"){ Vector3d e=Vector3d::Zero(); e[g.i(3)]=g.p(.5)?1:-1; X=t+Rt*(g.u(2,8)*e); }
      if(fl=="behind"){ X=g.u(2,8)*(Vector3d(0,0,-1)+0.4*g.nv()); }
      if(fl=="lattice"){ t=Vector3d(g.i(-3,3),g.i(-3,3),g.i(-3,3)); X=Vector3d(g.i(-6,6),g.i(-6,6),g.i(-6,6)); Rt=axisRot(g); }
      if(fl=="lowparallax"){ X=t.norm()*g.u(30,300)*g.unit(); }
      f1=X; f2=Rt.transpose()*(X-t); if(f1.norm()<1e-9*scale||f2.norm()<1e-9*scale){ par=0; continue; } f1/=f1.norm(); f2/=f2.norm();
      par=vecAngle(f1,Rt*f2); par=std::min(par,M_PI-par);
    } while(guard++<500&&par<(fl=="lowparallax"?1e-3:0.02));
    // reversed: the viewing lines meet behind one or both viewpoints, which is what a caller sees for the wrong decomposition of an essential matrix
    if(fl=="reversed"){ int m=1+g.i(3); if(m&1) f1=-f1; if(m&2) f2=-f2; }
    R.ev(Reporter::hs(fl)+c,X[0]+t[0]);
    int n=1+g.i(6),at=g.i(n); bearingVectors_t a(n),b(n); std::vector<int> cc(n,0); for(int k=0;k<n;k++){ a[k]=g.unit(); b[k]=g.unit(); }
    if(fl=="skew"){ double pp; do { f1=g.unit(); f2=g.unit(); pp=vecAngle(f1,Rt*f2); pp=std::min(pp,M_PI-pp); } while(pp<.05); par=pp; }
    double sg=c%2||fl=="skew"?pow(10,g.u(-6,-2))*std::min(1.0,par):0; Vector3d h1=f1+sg*g.nv(),h2=f2+sg*g.nv(); h1/=h1.norm(); h2/=h2.norm(); a[at]=h1; b[at]=h2;
    point_t p1,p2;
    if(c%4<2){ rp::CentralRelativeAdapter A(a,b,t,Rt); p1=tr::triangulate(A,at); p2=tr::triangulate2(A,at); }
    else { rp::CentralRelativeAdapter A(a,b); A.sett12(t); A.setR12(Rt); p1=tr::triangulate(A,at); p2=tr::triangulate2(A,at); }
    double D=X.norm()+t.norm();
    if(sg==0)
    { // the two-equation form loses precision where the viewing directions are nearly perpendicular to the optical axis
      double cond=std::max(1e-300,std::min(fabs(f1[2])+fabs(f2[2]),1.0));
      R.err("triangulate2:truth/"+fl,(p2-X).norm()/D*par*par,1e-12,0,"mid point triangulation gave %s for %s (parallax %.3g)",vs(p2).c_str(),vs(X).c_str(),par);
      Eigen::JacobiSVD<Eigen::MatrixXd> S(MatrixXd(algebraic(f1,f2,Rt,t/D))); double gap=S.singularValues()[2];
      if(gap<1e-5){ R.cov("linear: degenerate equations (no claim)"); (void)cond; }
      else R.err("triangulate:truth/"+fl,(p1-X).norm()/D*gap*gap,1e-12,0,"linear triangulation gave %s for %s (parallax %.3g, second smallest singular value %.3g)",vs(p1).c_str(),vs(X).c_str(),par,gap);
    }
    else
    {
      Vector3d m=midpoint(h1,h2,Rt,t); double pa=vecAngle(h1,Rt*h2); pa=std::min(pa,M_PI-pa);
      if(pa>5e-4) R.err("triangulate2:midpoint/"+fl,(p2-m).norm()/(D+m.norm())*pa*pa,1e-11,0,"returned %s, mid point of the shortest segment is %s",vs(p2).c_str(),vs(m).c_str());
      // optimality of the mid point itself, by construction of the closest points: the segment is perpendicular to both rays
      Eigen::Matrix4d A=algebraic(h1,h2,Rt,t); Eigen::JacobiSVD<Eigen::MatrixXd> S((MatrixXd(A))); Eigen::Vector4d h; h<<p1,1.0;
      double r=(A*h).norm()/h.norm(),s0=S.singularValues()[3]; R.mx("algebraic residual excess",r-s0);
      if(fin(p1)) R.err("triangulate:algebraic/"+fl,(r-s0)/S.singularValues()[0],1e-13,0,"algebraic residual %.17g, minimum %.17g",r,s0); else R.fail("triangulate:nonfinite","linear triangulation returned %s",vs(p1).c_str());
      if(fl=="skew"){ R.cov("skew viewing lines"); return; }
      if(S.singularValues()[2]>1e-2*S.singularValues()[0]&&par>0.05) R.err("triangulate:noise/"+fl,(p1-X).norm()/D/sg*par,1000,0.001,"noise %.3g: %s instead of %s",sg,vs(p1).c_str(),vs(X).c_str());
      if(par>0.05) R.err("triangulate2:noise/"+fl,(p2-X).norm()/D/sg*par*par,30,0,"noise %.3g: %s instead of %s",sg,vs(p2).c_str(),vs(X).c_str());
    }
    if(c<1) R.sample("%s: parallax %.3g noise %.2g point %s -> linear %s midpoint %s",fl.c_str(),par,sg,vs(X.transpose()).c_str(),vs(p1.transpose()).c_str(),vs(p2.transpose()).c_str());
  });
}
