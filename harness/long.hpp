// Long correspondence lists in which only a few entries carry the information:
// noise-free scenes where most correspondences repeat a small, insufficient set.
// A solver that looks at a part of its correspondences only cannot recover the truth.
#ifndef VERIF_LONG_HPP_
#define VERIF_LONG_HPP_
#include "solvers.hpp"
namespace vf
{
// entries [0,few) are repeated, [few,few+gen) occur once; where: 0 at the end, 1 in front, 2 anywhere, 3 in the middle
inline VI arrange(Rng&g,int n,int few,int gen,int where)
{
  VI r; for(int k=0;k<n-gen;k++) r.push_back(g.i(few)); VI u=iota(gen); for(auto&x:u) x+=few; g.shuffle(u); int at=where==0?(int)r.size():where==1?0:where==3?(int)r.size()/2:0;
  r.insert(r.begin()+at,u.begin(),u.end()); if(where==2) g.shuffle(r); return r;
}
struct LongSpec { const char*name; int few,gen; double tol,q,pert; int nmax; bool rig; };
inline int longN(Rng&g,int c,const LongSpec&s){ return g.i(s.few+s.gen+20,c%9==8?s.nmax:std::min(s.nmax,300)); }
inline double solErr(const Sol&r,const Matrix3d&Rt,const Vector3d&t,double scale,const Matrix3d&E)
{
  double e=INFINITY; for(auto&m:r.v){ if(!fin(m)) continue; double x; if(r.kind=='P') x=(m.block(0,0,3,3)-Rt).norm()+(Vector3d(m.col(3))-t).norm()/scale; else if(r.kind=='R') x=(m-Rt).norm();
    else if(r.kind=='E'){ if(m.cols()==6&&m.rightCols(3).norm()>1e-6*m.norm()) continue; x=essErr(Matrix3d(m.leftCols(3)),E); } else x=(m-t/t.norm()).norm(); e=std::min(e,x); }
  return e;
}
inline void longAbs(Reporter&R,std::initializer_list<LongSpec> list,int quick,int deep)
{
  static const char*fl[]={"std","near","huge","shifted","rot180"};
  for(auto&s:absSolvers()) for(LongSpec sp:list) if(s.name==sp.name) R.each(str("long/%s%s",sp.name,sp.rig?"/rig":""),R.N(quick,deep),[&](Rng&g,int c)
  {
    int n=longN(g,c,sp),cams=sp.rig?c%4==3?g.i(6,60):g.i(2,5):0; AbsCase q; do q=makeAbsFlavour(g,fl[c%5],sp.few+sp.gen,cams); while(s.prior==2&&M_PI-angleOf(q.s.R)<0.3&&c%5!=4); if(s.prior==2&&c%5==4) return; VI l=arrange(g,n,sp.few,sp.gen,(c/5)%4); AbsScene y=subScene(q.s,l);
    auto A=absAdapter(y,sp.rig?1+c%2:0); Matrix3d P=q.s.R*g.rotAxis(g.unit(),sp.pert); Vector3d t=q.s.t+sp.pert*q.scale*g.unit(); prior(*A->a,P,t); VI ix; if(c%3){ ix=A->order; } Sol r=s.run(*A->a,c%3?&ix:0); R.ev(Reporter::hs(s.name+"long")+c,q.s.t[0]); R.cov(str("long lists %s",sp.name)); R.mx("longest list",n);
    double e=solErr(r,q.s.R,q.s.t,q.scale,Matrix3d::Zero()); R.err(str("long/%s%s",sp.name,sp.rig?"/rig":""),e,sp.tol,sp.q,"%s: %d correspondences, of which %d repeat %d others (placed %d): none of %zu results is the true pose R=%s t=%s",fl[c%5],n,n-sp.gen,sp.few,(c/5)%4,r.v.size(),vs(q.s.R).c_str(),vs(q.s.t).c_str());
  });
}
inline void longRel(Reporter&R,std::initializer_list<LongSpec> list,int quick,int deep)
{
  static const char*fl[]={"std","near","huge","bigbase","bigrot"};
  for(auto&s:relSolvers()) for(LongSpec sp:list) if(s.name==sp.name) R.each(str("long/%s%s",sp.name,sp.rig?"/rig":""),R.N(quick,deep),[&](Rng&g,int c)
  {
    int n=longN(g,c,sp),cams=sp.rig?c%4==3?g.i(7,60):g.i(4,6):0; bool pure=s.name=="rotationOnly",sm=s.name.find("ge")==0; RelCase q; int guard=0; bool bad; do { q=makeRelFlavour(g,fl[sm?c%4:c%5],sp.few+sp.gen,cams,0.5,false); bad=M_PI-angleOf(q.s.R)<0.5; for(int k=0;k<q.s.n()&&!bad;k++) if(vecAngle(q.s.cr[q.s.c1[k]]*q.s.f1[k],q.s.R*q.s.cr[q.s.c2[k]]*q.s.f2[k])<0.02) bad=true; } while(bad&&guard++<500); if(bad) return;
    if(sm){ RelScene z=q.s; points_t X=z.p; VI a=z.c1,b=z.c2; z.p.clear(); z.f1.clear(); z.f2.clear(); z.c1.clear(); z.c2.clear(); z.R=g.rotMax(0.2); for(size_t k=0;k<X.size();k++) z.add(X[k],a[k],b[k]); q.s=z; }
    if(pure) for(int k=0;k<q.s.n();k++) q.s.f2[k]=q.s.R.transpose()*q.s.f1[k];
    VI l=arrange(g,n,sp.few,sp.gen,(c/5)%4); RelScene y=subScene(q.s,l); bool wt=s.name.find("weighted")!=std::string::npos&&!sp.rig; std::vector<double> w(n); for(auto&x:w) x=g.u(0.3,2);
    auto A=relAdapter(y,sp.rig?1:wt?3:c%2?0:4,w); Matrix3d P=q.s.R*g.rotAxis(g.unit(),sp.pert); Vector3d t=q.s.t*(1+sp.pert)+sp.pert*q.s.t.norm()*g.unit(); prior(*A->a,P,t); VI ix; if(c%3) ix=A->order; Sol r=s.run(*A->a,c%3?&ix:0); R.ev(Reporter::hs(s.name+"long")+c,q.s.t[0]); R.cov(str("long lists %s",sp.name)); R.mx("longest list",n);
    if(r.kind=='P'&&!sp.rig) for(auto&m:r.v){ Vector3d x=m.col(3); m.col(3)=x*(q.s.t.norm()/x.norm()); }
    double e=solErr(r,q.s.R,q.s.t,q.s.t.norm(),q.s.E()); R.err(str("long/%s%s",sp.name,sp.rig?"/rig":""),e,sp.tol,sp.q,"%s: %d correspondences, of which %d repeat %d others (placed %d): none of %zu results is the truth R=%s t=%s",fl[c%5],n,n-sp.gen,sp.few,(c/5)%4,r.v.size(),vs(q.s.R).c_str(),vs(q.s.t).c_str());
  });
}
inline void longPc(Reporter&R,std::initializer_list<LongSpec> list,int quick,int deep)
{
  for(auto&s:pcSolvers()) for(LongSpec sp:list) if(s.name==sp.name) R.each(str("long/%s",sp.name),R.N(quick,deep),[&](Rng&g,int c)
  {
    int n=longN(g,c,sp); double k0=c%3==0?1:c%3==1?1e-3:1e3; Matrix3d Q=g.rotMax(2.0); Vector3d t=k0*g.box(3); points_t a,b,ya,yb; for(int k=0;k<sp.few+sp.gen;k++){ Vector3d x; bool dup; do { x=k0*g.box(4); dup=false; for(auto&z:b) if((z-x).norm()<0.5*k0) dup=true; } while(dup); b.push_back(x); a.push_back(Q*x+t); }
    VI l=arrange(g,n,sp.few,sp.gen,(c/5)%4); for(int k:l){ ya.push_back(a[k]); yb.push_back(b[k]); } pc::PointCloudAdapter A(ya,yb); prior(A,Q*g.rotAxis(g.unit(),sp.pert),t+sp.pert*k0*g.unit()); VI ix=iota(n); Sol r=s.run(A,c%2?&ix:0); R.ev(Reporter::hs(s.name+"long")+c,t[0]); R.cov(str("long lists %s",sp.name)); R.mx("longest list",n);
    R.err(str("long/%s",sp.name),solErr(r,Q,t,k0,Q),sp.tol,sp.q,"%d points, of which %d repeat %d others (placed %d): not the true transformation R=%s t=%s",n,n-sp.gen,sp.few,(c/5)%4,vs(Q).c_str(),vs(t).c_str());
  });
}
} // namespace vf
#endif
