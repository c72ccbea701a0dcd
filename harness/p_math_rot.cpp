// P12  rotation parametrisations, orthogonal alignment, Gauss-Jordan elimination
#include "common.hpp"
#include <opengv/math/cayley.hpp>
#include <opengv/math/quaternion.hpp>
#include <opengv/math/arun.hpp>
#include <opengv/math/gauss_jordan.hpp>
using namespace vf; using namespace opengv;

static Matrix3d refCayley(const Vector3d&c){ Matrix3d S=skew(c); return (Matrix3d::Identity()-S).inverse()*(Matrix3d::Identity()+S); }
static Matrix3d mkRot(Rng&g,int k,std::string&name)
{
  static const char*nm[]={"random","identity","tiny","cube","halfturn","nearhalf","axisangle","coordaxis","planar","perturbed"}; name=nm[k];
  switch(k){ case 0: return g.rot(); case 1: return Matrix3d::Identity(); case 2: return g.rotMax(pow(10,g.u(-12,-2)));
   case 3: { int p[3]={0,1,2}; for(int z=2;z>0;z--) std::swap(p[z],p[g.i(z+1)]); Matrix3d M=Matrix3d::Zero(); for(int z=0;z<3;z++) M(z,p[z])=g.p(0.5)?1:-1; if(M.determinant()<0) M.row(0)=-M.row(0); return M; }
   case 4: { Vector3d a=g.unit(); if(g.p(0.3)) a=Vector3d(g.i(-1,1),g.i(-1,1),g.i(-1,1)); if(a.norm()<0.5) a=Vector3d(0,0,1); a.normalize(); return 2*a*a.transpose()-Matrix3d::Identity(); }
   case 5: { Vector3d a=g.unit(); return g.rotAxis(a,M_PI-pow(10,g.u(-8,-2))); }
   case 6: return g.rotAxis(g.unit(),g.u(-3.1,3.1));
   case 7: { Vector3d a(0,0,0); a[g.i(3)]=1; return g.rotAxis(a,g.i(-11,11)*M_PI/12); }
   case 8: return g.rotAxis(Vector3d(0,0,1),g.u(-3.14,3.14));
   default: { Matrix3d M=g.rot(); for(int z=0;z<9;z++) M.data()[z]+=1e-12*g.n(); return M; } }
}
static void rotations(Reporter&R)
{
  for(int k=0;k<10;k++) R.each(str("rotation/%d",k),R.N(4000,400000),[&](Rng&g,int c)
  {
    std::string nm; Matrix3d M=mkRot(g,k,nm); double ang=angleOf(M); R.ev(Reporter::hs(nm),M(0,1)+3*M(1,2));
    quaternion_t q=math::rot2quaternion(M); double n=0; for(int z=0;z<4;z++) n+=q[z]*q[z];
    R.err("quaternion:unit/"+nm,fabs(n-1),1e-12,0,"|q|^2=%.17g for %s",n,vs(M).c_str());
    Matrix3d B=math::quaternion2rot(q);
    R.err("quaternion:roundtrip/"+nm,rotErr(B,M),k==9?1e-4:1e-6,0,"R=%s q=[%.17g %.17g %.17g %.17g] gives %s",vs(M).c_str(),q[0],q[1],q[2],q[3],vs(B).c_str());
    if(ang<M_PI-1e-2)
    {
      Vector3d cy=math::rot2cayley(M); R.err("cayley:roundtrip/"+nm,rotErr(math::cayley2rot(cy),M),1e-8,0,"R=%s cayley=%s",vs(M).c_str(),vs(cy).c_str());
      Vector3d a(M(2,1)-M(1,2),M(0,2)-M(2,0),M(1,0)-M(0,1)); if(a.norm()>1e-6) R.err("cayley:axis/"+nm,(cy-a.normalized()*tan(ang/2)).norm()/(1+cy.norm()),1e-7,0,"cayley %s is not tan(a/2)*axis",vs(cy).c_str());
    }
    if(c<1) R.sample("rotation %s angle %.6g: quaternion [%.6g %.6g %.6g %.6g]",nm.c_str(),ang,q[0],q[1],q[2],q[3]);
  });
  R.each("parameters",R.N(20000,2000000),[&](Rng&g,int c)
  {
    double s=pow(10,g.u(-6,2)); Vector3d cy=s*g.nv(); if(c%9==0) cy[g.i(3)]=0; if(c%50==0) cy=Vector3d(g.i(-2,2),g.i(-2,2),g.i(-2,2)); R.ev(1,cy[0]+cy[2]);
    Matrix3d M=math::cayley2rot(cy),Q=math::cayley2rot_reduced(cy); double k=1+cy.squaredNorm();
    R.err("cayley:rotation",so3Err(M),1e-10,0,"cayley2rot(%s) is no rotation: %s",vs(cy).c_str(),vs(M).c_str());
    R.err("cayley:definition",rotErr(M,refCayley(cy)),1e-8,0,"cayley2rot(%s)=%s",vs(cy).c_str(),vs(M).c_str());
    R.err("cayley:reduced",(Q-k*M).norm()/k,1e-12,0,"cayley2rot_reduced(%s) is not the scaled rotation",vs(cy).c_str());
    if(s<10) R.err("cayley:inverse",(math::rot2cayley(M)-cy).norm()/k,1e-8,0,"rot2cayley(cayley2rot(%s))",vs(cy).c_str());
    Eigen::Vector4d z(g.n(),g.n(),g.n(),g.n()); if(c%7==0) z[g.i(4)]=0; if(c%11==0) z[0]=0; z.normalize(); quaternion_t q; for(int t=0;t<4;t++) q[t]=z[t];
    Matrix3d W=math::quaternion2rot(q); R.err("quaternion:definition",rotErr(W,Eigen::Quaterniond(z[0],z[1],z[2],z[3]).toRotationMatrix()),1e-12,0,"quaternion2rot([%g %g %g %g])",z[0],z[1],z[2],z[3]);
    quaternion_t b=math::rot2quaternion(W); double d=0; for(int t=0;t<4;t++) d+=b[t]*q[t]; R.err("quaternion:inverse",1-fabs(d),1e-10,0,"rot2quaternion(quaternion2rot(q)) is not +-q for [%.17g %.17g %.17g %.17g]",z[0],z[1],z[2],z[3]);
  });
}
// arun: R maximises trace(R*H) over all rotations (H = sum f' f^T)
static void arun(Reporter&R)
{
  static const char* kinds[]={"exact","noisy","planar","planarnoisy","reflected","few","scaled","shifted","random"};
  for(int k=0;k<9;k++) R.each(str("arun/%s",kinds[k]),R.N(2500,200000),[&](Rng&g,int c)
  {
    int n=k==5?3:g.i(4,30); Matrix3d M=g.rot(); Vector3d t=3*g.nv(); double sc=k==6?pow(10,g.u(-4,4)):1; points_t p1,p2; Vector3d pn=g.unit(),off=k==7?Vector3d(1000*g.unit()):Vector3d(0,0,0);
    for(int z=0;z<n;z++){ Vector3d x=2*g.nv(); if(k==2||k==3) x-=pn*pn.dot(x); x=sc*x; Vector3d y=M*x+sc*t; if(k==1||k==3) y+=0.3*g.nv(); if(k==4){ y=M*(x-2*pn*pn.dot(x)); } if(k==8) y=2*g.nv(); p1.push_back(y+off); p2.push_back(x+off); }
    R.ev(Reporter::hs(kinds[k]),p1[0][0]);
    transformation_t T=math::arun_complete(p1,p2); Matrix3d Q=T.block<3,3>(0,0);
    R.err(str("arun:rotation/%s",kinds[k]),so3Err(Q),1e-9,0,"no proper rotation: %s (n=%d)",vs(Q).c_str(),n);
    Vector3d m1=Vector3d::Zero(),m2=m1; for(int z=0;z<n;z++){ m1+=p1[z]/n; m2+=p2[z]/n; } Matrix3d H=Matrix3d::Zero(); for(int z=0;z<n;z++) H+=(p2[z]-m2)*(p1[z]-m1).transpose();
    R.err(str("arun:translation/%s",kinds[k]),(T.col(3)-(m1-Q*m2)).norm()/(sc+off.norm()),1e-9,0,"translation does not map the centroids onto each other");
    // optimum known in closed form: s1+s2+-s3
    Eigen::JacobiSVD<Matrix3d> S(H,Eigen::ComputeFullU|Eigen::ComputeFullV); double best=S.singularValues()[0]+S.singularValues()[1]+((S.matrixU()*S.matrixV()).determinant()*1.0<0?-1:1)*S.singularValues()[2];
    double got=(Q*H).trace(); R.err(str("arun:optimal/%s",kinds[k]),(best-got)/(fabs(best)+1e-300),1e-9,0,"alignment score %.12g below the optimum %.12g",got,best);
    for(int z=0;z<4;z++){ Matrix3d P=z?Matrix3d(Q*g.rotMax(pow(10,-z))):g.rot(); if((P*H).trace()>got+1e-9*fabs(best)) R.fail("arun:improvable","a nearby rotation scores better: %.12g > %.12g",(P*H).trace(),got); }
    if(k==0||k==6||k==7||k==2||k==5) R.err(str("arun:truth/%s",kinds[k]),rotErr(Q,M),k==7?1e-6:1e-7,k==5?0.01:0.002,"exact data, n=%d",n);
    Matrix3d A=math::arun(H); R.err("arun:kernel",so3Err(A)+fabs((A*H).trace()-best)/(fabs(best)+1e-300),1e-9,0,"arun(H) is not the optimal rotation");
  });
}
static void gj(Reporter&R)
{
  static const char* kinds[]={"dense","sparse","permuted","zeropivot","small","illscaled"};
  for(int k=0;k<6;k++) R.each(str("gauss/%s",kinds[k]),R.N(1500,60000),[&](Rng&g,int c)
  {
    int n=g.i(1,k==1?40:14), m=n+g.i(0,8); MatrixXd A(n,m); double cond;
    int guard=0; do {
      for(int r=0;r<n;r++) for(int q=0;q<m;q++) A(r,q)=(k==1&&!g.p(0.15))?0:g.n();
      if(k==1) for(int r=0;r<n;r++) A(r,(r+7)%n)+=2;
      if(k==2||k==3){ std::vector<int> p=g.subset(n,n); MatrixXd L=MatrixXd::Zero(n,n); for(int r=0;r<n;r++) for(int q=0;q<=r;q++) L(p[r],q)=q==r?1+g.u():(g.p(0.4)?g.n():0); A.leftCols(n)=L; }
      if(k==4) A*=1e-3; if(k==5) for(int r=0;r<n;r++) A.row(r)*=pow(10,g.u(-2,2));
      Eigen::JacobiSVD<MatrixXd> S(A.leftCols(n)); cond=S.singularValues()[0]/S.singularValues()[n-1]; } while(!(cond<1e4)&&guard++<300);
    if(!(cond<1e4)) return; int ec=g.i(0,n-1); if(c%3==0) ec=0; R.ev(Reporter::hs(kinds[k])+n,A(0,0));
    std::vector<std::vector<double>*> v; for(int r=0;r<n;r++){ v.push_back(new std::vector<double>(m)); for(int q=0;q<m;q++) (*v[r])[q]=A(r,q); }
    std::set<std::vector<double>*> before(v.begin(),v.end());
    math::gauss_jordan(v,ec);
    std::set<std::vector<double>*> after(v.begin(),v.end()); if(before!=after) R.fail("gauss:rows","the rows are not a permutation of the input rows");
    MatrixXd B(n,m); for(int r=0;r<n;r++) for(int q=0;q<m;q++) B(r,q)=(*v[r])[q];
    // reference: rows from ec on are fully reduced -> equal inv(A_left)*A there
    // (entries left of the pivot of earlier eliminations are not stored as zero, so only the columns right of the pivots count)
    MatrixXd ref=A.leftCols(n).partialPivLu().solve(A); double e=0,sc=1; for(int r=ec;r<n;r++) for(int q=n;q<m;q++) sc=std::max(sc,fabs(ref(r,q))); 
    for(int r=ec;r<n;r++) for(int q=n;q<m;q++) e=std::max(e,fabs(B(r,q)-ref(r,q)));
    R.err(str("gauss:reduced/%s",kinds[k]),e/sc,1e-6,k==4?0.01:0.002,"n=%d m=%d exit=%d cond=%.3g: reduced rows differ from the exact elimination",n,m,ec,cond);
    e=0; for(int r=ec;r<n;r++) for(int q=r;q<n;q++) e=std::max(e,fabs(B(r,q)-(q==r?1:0)));
    R.err(str("gauss:identity/%s",kinds[k]),e,1e-8,0.002,"n=%d exit=%d: reduced part is not the identity",n,ec);
    for(auto x: before) delete x;
    if(c<1) R.sample("gauss %s %dx%d exit row %d condition %.3g",kinds[k],n,m,ec,cond);
  });
}
void monitor(Reporter&R){ rotations(R); arun(R); gj(R); }
