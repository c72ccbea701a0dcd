// Independent cost functions of the documented reprojection errors and a small
// independent minimiser used as an optimality probe.
#ifndef VERIF_REFINE_HPP_
#define VERIF_REFINE_HPP_
#include "scenes.hpp"
namespace vf
{
inline double absDist(const AbsScene&s,int k,const Matrix3d&R,const Vector3d&t)
{ Vector3d c=s.cr[s.cc[k]].transpose()*(R.transpose()*(s.p[k]-t)-s.co[s.cc[k]]); return 1-s.f[k].dot(c)/c.norm(); }
// mid point of the shortest segment between the rays a*f1 and t+b*R*f2
inline Vector3d midpoint(const Vector3d&f1,const Vector3d&f2,const Matrix3d&R,const Vector3d&t)
{ Vector3d d=R*f2; double a=f1.dot(f1),b=-f1.dot(d),c=d.dot(d),e=f1.dot(t),h=-d.dot(t),D=a*c-b*b; double l=(c*e-b*h)/D,m=(a*h-b*e)/D; return 0.5*(l*f1+t+m*d); }
inline double relDist2(const Vector3d&f1,const Vector3d&f2,const Matrix3d&R,const Vector3d&t)
{ Vector3d p=midpoint(f1,f2,R,t),q=R.transpose()*(p-t); return 2-f1.dot(p)/p.norm()-f2.dot(q)/q.norm(); }
inline double relDist(const RelScene&s,int k,const Matrix3d&R,const Vector3d&t)
{ const Matrix3d&A=s.cr[s.c1[k]],&B=s.cr[s.c2[k]]; return relDist2(s.f1[k],s.f2[k],A.transpose()*R*B,A.transpose()*(t-s.co[s.c1[k]]+R*s.co[s.c2[k]])); }

inline Matrix3d expm(const Vector3d&w){ double a=w.norm(); if(a<1e-300) return Matrix3d::Identity(); return Eigen::AngleAxisd(a,w/a).toRotationMatrix(); }
typedef std::function<VectorXd(const Matrix3d&,const Vector3d&)> Resid;
inline double sq(const VectorXd&v){ return v.squaredNorm(); }
// damped Gauss-Newton with central differences; returns the final cost
inline double minimise(const Resid&f,Matrix3d R,Vector3d t,double tscale,int iters=30,Matrix3d*Ro=0,Vector3d*to=0)
{
  VectorXd r=f(R,t); double c=sq(r), lam=1e-4; int n=(int)r.size();
  for(int it=0;it<iters;it++)
  {
    MatrixXd J(n,6); for(int k=0;k<6;k++){ double h=1e-6; Vector3d a(0,0,0),b(0,0,0); (k<3?a:b)[k%3]=h; J.col(k)=(f(R*expm(a),t+tscale*b)-f(R*expm(-a),t-tscale*b))/(2*h); }
    Eigen::Matrix<double,6,6> H=J.transpose()*J; Eigen::Matrix<double,6,1> g=J.transpose()*r; bool ok=false;
    for(int tr=0;tr<6&&!ok;tr++)
    { Eigen::Matrix<double,6,6> M=H; for(int k=0;k<6;k++) M(k,k)+=lam*(H(k,k)+1e-12*H.trace()); Eigen::Matrix<double,6,1> d=-M.ldlt().solve(g); if(!fin(d)) { lam*=10; continue; }
      Matrix3d R2=R*expm(Vector3d(d.head<3>())); Vector3d t2=t+tscale*Vector3d(d.tail<3>()); VectorXd r2=f(R2,t2); double c2=sq(r2); if(c2<c){ if(c-c2<1e-14*c) it=iters; R=R2; t=t2; r=r2; c=c2; lam=std::max(lam*0.1,1e-12); ok=true; } else lam*=10; }
    if(!ok) break;
  }
  if(Ro) *Ro=R; if(to) *to=t; return c;
}
} // namespace vf
#endif
