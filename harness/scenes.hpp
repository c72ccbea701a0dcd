// Flavours of scenes: the unusual but valid inputs the properties quantify over.
#ifndef VERIF_SCENES_HPP_
#define VERIF_SCENES_HPP_
#include "common.hpp"
namespace vf
{
// scale: length that a position error is measured against
struct AbsCase { EIGEN_MAKE_ALIGNED_OPERATOR_NEW AbsScene s; double scale; std::string flavour; };

inline const std::vector<std::string>& absFlavours()
{ static const std::vector<std::string> v={"std","front","far","near","tiny","huge","shifted","idrot","idpose","rot180","rotaxis","smallrot","plane0","uneven","lattice","narrow"}; return v; }

inline Matrix3d axisRot(Rng &g)   // one of the 24 rotations of the cube
{ int p[3]={0,1,2}; for(int k=2;k>0;k--) std::swap(p[k],p[g.i(k+1)]); Matrix3d M=Matrix3d::Zero(); for(int k=0;k<3;k++) M(k,p[k])=g.p(0.5)?1:-1; if(M.determinant()<0) M.row(0)=-M.row(0); return M; }

inline AbsCase makeAbsFlavour(Rng &g,const std::string &fl,int n,int cams,double offset=0.5)
{
  AbsCase c; c.flavour=fl; c.scale=1; AbsOpt o; o.n=0; o.cams=cams; o.offset=offset;
  double dmin=4,dmax=8,fov=M_PI,k=1; Vector3d sh(0,0,0); double ps=2;
  if(fl=="front") fov=0.6; if(fl=="far"){ dmin=40; dmax=80; fov=1.0; } if(fl=="near"){ dmin=0.8; dmax=1.5; }
  if(fl=="tiny") k=1e-3; if(fl=="huge") k=1e3; if(fl=="shifted") sh=100*g.unit(); if(fl=="uneven"){ dmin=1; dmax=60; }
  if(fl=="narrow") fov=0.2;
  o.posScale=ps*k; o.offset=offset*k;
  AbsScene s=makeAbs(g,o);
  if(fl=="idrot"||fl=="idpose") s.R=Matrix3d::Identity(); if(fl=="idpose") s.t=Vector3d::Zero();
  if(fl=="rot180") s.R=g.rotAxis(g.unit(),M_PI); if(fl=="rotaxis") s.R=axisRot(g); if(fl=="smallrot") s.R=g.rotMax(1e-3);
  s.t+=sh; Vector3d axis=g.unit(); if(fl=="front") axis=Vector3d(0,0,1);
  if(fl=="plane0") { // camera above a marker plane z=0, looking anywhere on it
    s.t=Vector3d(g.u(-2,2),g.u(-2,2),g.u(3,6)*(g.p(0.5)?1:-1)); }
  for(int q=0;q<n;q++)
  {
    int cam=q%(int)s.co.size(); Vector3d w;
    if(fl=="plane0") w=Vector3d(g.u(-4,4),g.u(-4,4),0);
    else if(fl=="lattice") { bool dup; do { w=Vector3d(g.i(-6,6),g.i(-6,6),g.i(-6,6)); dup=(w-s.t).norm()<1.5; for(auto&x: s.p) if((x-w).norm()<0.5) dup=true; } while(dup); }
    else { Vector3d d; do d=g.unit(); while(vecAngle(d,axis)>fov); w=s.R*(k*g.u(dmin,dmax)*d)+s.t; }
    s.add(w,cam);
  }
  c.s=s; c.scale=k*(fl=="far"?10:fl=="uneven"?5:fl=="shifted"?20:1);
  return c;
}

// geometric conditioning helpers -----------------------------------------
// smallest sine of the angles of the triangle and of its bearing pairs
inline double triangleQuality(const Vector3d&a,const Vector3d&b,const Vector3d&c)
{ Vector3d u=b-a,v=c-a,w=c-b; double s=u.cross(v).norm(); double l[3]={u.norm(),v.norm(),w.norm()}; std::sort(l,l+3); return s/(l[1]*l[2]); }

struct RelCase { EIGEN_MAKE_ALIGNED_OPERATOR_NEW RelScene s; std::string flavour; double scale; };
inline const std::vector<std::string>& relFlavours()
{ static const std::vector<std::string> v={"std","front","far","near","tiny","huge","bigrot","rotaxis","norot","smallrot","forward","sideways","smallbase","bigbase","uneven"}; return v; }
inline RelCase makeRelFlavour(Rng &g,const std::string &fl,int n,int cams,double offset=0.5,bool samecam=true)
{
  RelCase c; c.flavour=fl; c.scale=1; double k=1,dmin=4,dmax=8,fov=M_PI,rot=0.5,tmin=0.5,tmax=2;
  if(fl=="front") fov=0.7; if(fl=="far"){ dmin=20; dmax=60; tmin=4; tmax=10; } if(fl=="near"){ dmin=2.5; dmax=4; } if(fl=="tiny") k=1e-3; if(fl=="huge") k=1e3;
  if(fl=="bigrot") rot=2.5; if(fl=="norot") rot=0; if(fl=="smallrot") rot=1e-3; if(fl=="smallbase"){ tmin=0.05; tmax=0.1; } if(fl=="bigbase"){ tmin=2; tmax=3.5; } if(fl=="uneven"){ dmin=3; dmax=60; }
  RelOpt o; o.n=0; o.cams=cams; o.offset=offset*k; o.rotMax=rot; o.tMin=tmin*k; o.tMax=tmax*k;
  RelScene s=makeRel(g,o); if(rot==0) s.R=Matrix3d::Identity(); if(fl=="rotaxis") s.R=axisRot(g);
  Vector3d axis=g.unit(); if(fl=="front") axis=Vector3d(0,0,1);
  if(fl=="forward"){ axis=Vector3d(0,0,1); fov=1.0; s.t=Vector3d(0,0,g.u(0.5,2)); } if(fl=="sideways"){ axis=Vector3d(0,0,1); fov=1.0; s.t=Vector3d(g.u(0.5,2),0,0); }
  for(int q=0;q<n;q++){ Vector3d d; do d=g.unit(); while(vecAngle(d,axis)>fov); int a=q%(int)s.co.size(),b=a; if(!samecam) b=g.i((int)s.co.size()); s.add(k*g.u(dmin,dmax)*d,a,b); }
  c.s=s; c.scale=k; return c;
}
} // namespace vf
#endif
