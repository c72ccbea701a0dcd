// P05  known rotation, pure rotation and eigenvalue-based solvers
#include "scenes.hpp"
#include "long.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
using namespace vf; using namespace opengv; namespace rp=opengv::relative_pose;
static bool eq(const MatrixXd&a,const MatrixXd&b){ return !memcmp(a.data(),b.data(),sizeof(double)*a.size()); }
// embeds the n correspondences of s between junk and returns their positions
struct Emb { bearingVectors_t a,b; std::vector<int> pos; };
static Emb embed(Rng&g,const RelScene&s,int extra)
{ Emb d; int n=s.n(),m=n+extra; d.pos=g.subset(m,n); d.a.resize(m); d.b.resize(m); for(int k=0;k<m;k++){ d.a[k]=g.unit(); d.b[k]=g.unit(); } for(int k=0;k<n;k++){ d.a[d.pos[k]]=s.f1[k]; d.b[d.pos[k]]=s.f2[k]; } return d; }
static Emb plain(const RelScene&s){ Emb d; d.a=s.f1; d.b=s.f2; d.pos=iota(s.n()); return d; }
static Matrix3d perturb(Rng&g,const Matrix3d&R,double a){ return R*g.rotAxis(g.unit(),a*g.u(0.2,1)); }

void monitor(Reporter&R)
{
  for(auto&fl:relFlavours()) R.each("twopt/"+fl,R.N(3000,60000),[&](Rng&g,int c)
  {
    RelCase q; RelScene&s=q.s; int guard=0; double p0,p1,an;
    do { q=makeRelFlavour(g,fl,2,0); Vector3d n0=s.f1[0].cross(s.R*s.f2[0]),n1=s.f1[1].cross(s.R*s.f2[1]); p0=n0.norm(); p1=n1.norm(); an=n0.cross(n1).norm()/(p0*p1); } while((p0<1e-3||p1<1e-3||an<0.02)&&guard++<300);
    if(guard>=300) return;
    // known rotation: either in the adapter (unrotate) or already removed from the data
    bool un=c%2; RelScene z=s; if(!un) for(auto&f:z.f2) f=s.R*f;
    Emb d=c%3?embed(g,z,g.i(0,5)):plain(z); rotation_t Rk=s.R; translation_t junk=g.box(3);
    rp::CentralRelativeAdapter A(d.a,d.b); if(un){ A.setR12(Rk); if(c%4<2) A.sett12(junk); } else if(c%4<2) A.setR12(g.rot());
    std::vector<int> ix=d.pos; int extra=c%5; for(int k=0;k<extra;k++) ix.push_back(g.i((int)d.a.size()));
    translation_t t=c%3==1?rp::twopt(A,un,(size_t)ix[0],(size_t)ix[1]):rp::twopt(A,un,ix); R.ev(Reporter::hs(fl)+c,s.t[0]);
    double e=fin(t)?(t-s.t/s.t.norm()).norm():INFINITY;
    R.err("twopt:direction/"+fl,e,1e-7,0.001,"got %s true %s unrotate=%d R=%s",vs(t.transpose()).c_str(),vs((s.t/s.t.norm()).transpose()).c_str(),(int)un,vs(s.R).c_str());
    R.err("twopt:unit",fabs(t.norm()-1),1e-9,0.0002,"norm of the direction, %s",fl.c_str());
    translation_t t2=rp::twopt(A,un,(size_t)ix[1],(size_t)ix[0]); R.err("twopt:order",fin(t2)?(t2-s.t/s.t.norm()).norm():INFINITY,1e-7,0.001,"swapped correspondences give %s",vs(t2.transpose()).c_str());
  });
  static const char*rots[]={"std","small","tinyrot","identity","axis","half"};
  static const char*fovs[]={"all","front","narrow"};
  for(auto rn:rots) for(auto fn:fovs) R.each(str("rotation/%s/%s",rn,fn),R.N(1000,30000),[&](Rng&g,int c)
  {
    std::string r=rn,f=fn; RelScene s; s.t=Vector3d::Zero(); s.co.push_back(Vector3d::Zero()); s.cr.push_back(Matrix3d::Identity());
    s.R=r=="std"?g.rot():r=="small"?g.rotMax(0.3):r=="tinyrot"?g.rotMax(1e-6):r=="identity"?Matrix3d(Matrix3d::Identity()):r=="axis"?axisRot(g):g.rotAxis(g.unit(),M_PI);
    int n=c%3==0?3:g.i(3,40); Vector3d ax=g.unit(); double fov=f=="all"?M_PI:f=="front"?0.8:0.2,cc; int guard=0;
    do { RelScene z=s; for(int k=0;k<n;k++){ Vector3d d; do d=g.unit(); while(vecAngle(d,ax)>fov); z.add(g.u(1,9)*d,0,0); } cc=z.f1[0].cross(z.f1[1]).norm();
      Vector3d m(0,0,0); for(auto&x:z.f1) m+=x; m/=n; Matrix3d H=Matrix3d::Zero(); for(auto&x:z.f1) H+=(x-m)*(x-m).transpose(); Eigen::SelfAdjointEigenSolver<Matrix3d> S(H); bool bad=cc<0.02||vecAngle(z.f1[0],z.f1[1])>3.0||S.eigenvalues()[1]<1e-4; if(!bad){ s=z; break; } } while(guard++<300);
    if(s.f1.empty()) return;
    Emb d=c%2?embed(g,s,g.i(1,8)):plain(s); rp::CentralRelativeAdapter A(d.a,d.b); if(c%4<2){ A.setR12(g.rot()); A.sett12(g.box(2)); } R.ev(Reporter::hs(r+f)+c,s.f1[0][0]);
    rotation_t x=c%2||c%4==0?rp::rotationOnly(A,d.pos):rp::rotationOnly(A); 
    R.err(str("rotationOnly/%s/%s",rn,fn),rotErr(x,s.R),1e-9,0.002,"got %s true %s n=%d",vs(x).c_str(),vs(s.R).c_str(),n);
    rotation_t y=c%3?rp::twopt_rotationOnly(A,d.pos):rp::twopt_rotationOnly(A,(size_t)d.pos[0],(size_t)d.pos[1]);
    R.err(str("twopt_rotationOnly/%s/%s",rn,fn),rotErr(y,s.R),1e-8,0.002,"got %s true %s",vs(y).c_str(),vs(s.R).c_str());
    R.err("rotation:valid",std::max(so3Err(x),so3Err(y)),1e-9,0.0002,"no rotation matrix (%s %s)",rn,fn);
  });
  // best rotation for noisy bearings: no small rotation lowers the alignment error
  R.each("rotation/noisy",R.N(2000,40000),[&](Rng&g,int c)
  {
    RelScene s; s.t=Vector3d::Zero(); s.co.push_back(Vector3d::Zero()); s.cr.push_back(Matrix3d::Identity()); s.R=g.rot(); int n=g.i(3,30); for(int k=0;k<n;k++) s.add(g.unit(),0,0); double nz=pow(10,g.u(-4,-1)); for(auto&f:s.f2){ f+=nz*g.nv(); f/=f.norm(); }
    rp::CentralRelativeAdapter A(s.f1,s.f2); rotation_t x=rp::rotationOnly(A); R.ev(Reporter::hs("noisy")+c,nz);
    Vector3d m1(0,0,0),m2(0,0,0); for(int k=0;k<n;k++){ m1+=s.f1[k]/n; m2+=s.f2[k]/n; } auto cost=[&](const Matrix3d&Q){ double z=0; for(int k=0;k<n;k++) z+=((s.f1[k]-m1)-Q*(s.f2[k]-m2)).squaredNorm(); return z; };
    double c0=cost(x),w=0; for(int k=0;k<12;k++) w=std::max(w,c0-cost(x*g.rotAxis(g.unit(),1e-3)));
    R.err("rotationOnly:optimal",w/(c0+1e-12),1e-6,0.0005,"a neighbouring rotation aligns better (n=%d noise=%g)",n,nz); R.err("rotation:valid",so3Err(x),1e-9,0.0002,"no rotation matrix with noise %g",nz);
  });
  static const char*ef[]={"std","front","near","tiny","huge","smallrot","norot","forward","sideways","bigbase"};
  for(auto fn:ef) R.each(str("eigensolver/%s",fn),R.N(400,12000),[&](Rng&g,int c)
  {
    std::string fl=fn; int n=c%4==0?10:g.i(10,60); RelCase q=makeRelFlavour(g,fl,n,0); RelScene&s=q.s; double a=c%3==0?0:c%3==1?0.01:0.001;
    rotation_t R0=perturb(g,s.R,a); bool sub=c%2; Emb d=sub?embed(g,s,g.i(1,8)):plain(s); rp::CentralRelativeAdapter A(d.a,d.b); bool viaOut=c%4<2; if(viaOut){ if(c%8<4) A.setR12(g.rot()); } else A.setR12(R0);
    eigensolverOutput_t o; o.rotation=R0; rotation_t x;
    bool w=c%3==2; if(w) A.setR12(viaOut?rotation_t(g.rot()):R0);
    if(viaOut) x=sub?rp::eigensolver(A,d.pos,o,w):rp::eigensolver(A,o,w); else x=sub?rp::eigensolver(A,d.pos,w):rp::eigensolver(A,w);
    R.ev(Reporter::hs(fl)+c,s.t[0]);
    R.err("eigensolver:rotation/"+fl,rotErr(x,s.R),1e-4,0.004,"got %s true %s start error %g n=%d",vs(x).c_str(),vs(s.R).c_str(),a,n);
    R.err("eigensolver:valid",so3Err(x),1e-9,0.0002,"no rotation matrix");
    if(!viaOut) return;
    if(!eq(x,o.rotation)) R.fail("eigensolver:output","returned rotation differs from output.rotation");
    double te=fin(o.translation)?(o.translation/o.translation.norm()-s.t/s.t.norm()).norm():INFINITY;
    R.err("eigensolver:translation/"+fl,te,1e-3,0.004,"direction %s true %s n=%d",vs(o.translation.transpose()).c_str(),vs(s.t.transpose()/s.t.norm()).c_str(),n);
    // M = sum w (f1 x R f2)(f1 x R f2)^T at the returned rotation, from the data
    Matrix3d M=Matrix3d::Zero(); double nw=0; nw=sqrt((double)n); for(int k=0;k<n;k++){ Vector3d v=s.f1[k].cross(x*s.f2[k]); M+=(w?1/nw:1.0)*v*v.transpose(); }
    Eigen::SelfAdjointEigenSolver<Matrix3d> S(M); Vector3d ev(S.eigenvalues()[2],S.eigenvalues()[1],S.eigenvalues()[0]); double sc=ev[0],es=o.eigenvalues[0]/sc;
    R.err("eigensolver:eigenvalues",fin(o.eigenvalues)?(o.eigenvalues/o.eigenvalues[0]-ev/sc).norm():INFINITY,1e-9,0.0005,"eigenvalues %s, those of the normal matrix are (up to scale) %s",vs(o.eigenvalues.transpose()).c_str(),vs(ev.transpose()).c_str());
    double r=0; for(int k=0;k<3;k++){ Vector3d v=o.eigenvectors.col(k); r=std::max(r,(es*M*v-o.eigenvalues[k]*v).norm()/o.eigenvalues[0]+fabs(v.norm()-1)); }
    R.err("eigensolver:eigenvectors",fin(o.eigenvectors)?r:INFINITY,1e-9,0.0005,"eigenvectors do not belong to the eigenvalues (%s)",fn);
    R.err("eigensolver:pairing",fin(o.translation)?Vector3d(o.translation/o.translation.norm()).cross(Vector3d(o.eigenvectors.col(2))).norm():INFINITY,1e-9,0.0005,"translation is not the last eigenvector");
    Vector3d of=s.f1[0]-x*s.f2[0]; if(of.dot(o.translation)<0) R.fail("eigensolver:sign","translation points against the optical flow of the first correspondence");
  });
  // noisy bearings: the rotation is a stationary point of the smallest eigenvalue of the (weighted) normal matrix, and stays near the true one
  for(auto fn:ef) R.each(str("eigensolver-noise/%s",fn),R.N(300,8000),[&](Rng&g,int c)
  {
    std::string fl=fn; int n=g.i(12,60); RelCase q=makeRelFlavour(g,fl,n,0); RelScene&s=q.s; double sg=pow(10,g.u(-4,-2.3)); for(auto*v:{&s.f1,&s.f2}) for(auto&f:*v){ f+=sg*g.nv(); f/=f.norm(); }
    rotation_t R0=perturb(g,s.R,0.005); bool w=c%3==2,sub=c%2; Emb d=sub?embed(g,s,g.i(1,8)):plain(s); std::vector<double> wt(d.a.size()); for(auto&z:wt) z=g.u(0.1,3); rp::CentralRelativeWeightingAdapter A(d.a,d.b,wt,R0); eigensolverOutput_t o; o.rotation=R0;
    rotation_t x=sub?rp::eigensolver(A,d.pos,o,w):rp::eigensolver(A,o,w); R.ev(Reporter::hs(fl)+c,s.t[0]); R.err("eigensolver:valid",so3Err(x),1e-9,0.0002,"no rotation matrix"); if(!fin(x)) return;
    auto lam=[&](const Vector3d&h){ Matrix3d M=Matrix3d::Zero(); Matrix3d Y=x*Eigen::AngleAxisd(h.norm(),h.norm()>0?Vector3d(h/h.norm()):Vector3d(1,0,0)).toRotationMatrix(); double nw=0; for(int k=0;k<n;k++){ Vector3d v=s.f1[k].cross(Y*s.f2[k]); double z=w?wt[d.pos[k]]:1; nw+=z; M+=z*v*v.transpose(); } return Eigen::SelfAdjointEigenSolver<Matrix3d>(M/nw).eigenvalues()[0]; };
    Vector3d gr; Matrix3d H; double h=1e-5,h2=1e-4,l0=lam(Vector3d::Zero()); Vector3d E[3]={Vector3d::UnitX(),Vector3d::UnitY(),Vector3d::UnitZ()}; for(int i=0;i<3;i++) gr[i]=(lam(h*E[i])-lam(-h*E[i]))/(2*h);
    for(int i=0;i<3;i++) for(int j=0;j<3;j++) H(i,j)=i==j?(lam(h2*E[i])+lam(-h2*E[i])-2*l0)/(h2*h2):(lam(h2*(E[i]+E[j]))-lam(h2*(E[i]-E[j]))-lam(h2*(E[j]-E[i]))+lam(-h2*(E[i]+E[j])))/(4*h2*h2);
    Eigen::SelfAdjointEigenSolver<Matrix3d> S(H); if(S.eigenvalues()[0]<1e-3*S.eigenvalues()[2]||S.eigenvalues()[0]<1e-5){ R.cov("eigensolver with noise: flat or indefinite cost"); return; }
    double step=(H.inverse()*gr).norm(); R.err("eigensolver-noise:stationary/"+fl,step/sg,0.3,fl=="front"?0.012:fl=="forward"||fl=="sideways"?0.003:0.0005,"the smallest eigenvalue is lower %.3g rad away (noise %.3g n=%d weights %d)",step,sg,n,w);
  });
  // down to five correspondences
  for(auto fn:ef) R.each(str("eigensolver-few/%s",fn),R.N(200,6000),[&](Rng&g,int c)
  {
    std::string fl=fn; int n=5+c%5; RelCase q=makeRelFlavour(g,fl,n,0); RelScene&s=q.s; double a=c%3==0?0:c%3==1?0.001:1e-5; rotation_t R0=perturb(g,s.R,a); bool sub=c%2; Emb d=sub?embed(g,s,g.i(1,8)):plain(s); rp::CentralRelativeAdapter A(d.a,d.b); A.setR12(R0); eigensolverOutput_t o; o.rotation=R0; rotation_t x; bool out=c%4<2; if(out) x=sub?rp::eigensolver(A,d.pos,o):rp::eigensolver(A,o); else x=sub?rp::eigensolver(A,d.pos):rp::eigensolver(A); R.ev(Reporter::hs(fl)+c,s.t[0]);
    R.err(str("eigensolver-few:rotation%d/%s",n,fn),rotErr(x,s.R),1e-4,n==5?0.03:n==6?0.008:0.003,"got %s true %s start error %g n=%d",vs(x).c_str(),vs(s.R).c_str(),a,n); R.err("eigensolver:valid",so3Err(x),1e-9,0.0002,"no rotation matrix");
    if(out){ double te=fin(o.translation)?(o.translation/o.translation.norm()-s.t/s.t.norm()).norm():INFINITY; R.err(str("eigensolver-few:translation%d/%s",n,fn),te,1e-3,n==5?0.03:n==6?0.008:0.003,"direction %s true %s n=%d",vs(o.translation.transpose()).c_str(),vs(s.t.transpose()/s.t.norm()).c_str(),n); }
  });
  // weights: correspondences of weight zero do not take part
  R.each("eigensolver/weights",R.N(600,12000),[&](Rng&g,int c)
  {
    int n=g.i(12,40); RelCase q=makeRelFlavour(g,"std",n,0); RelScene&s=q.s; Emb d=embed(g,s,g.i(1,10)); int m=(int)d.a.size(); std::vector<double> w(m,0.0); for(int k:d.pos) w[k]=g.u(0.3,3);
    rotation_t R0=perturb(g,s.R,0.01); rp::CentralRelativeWeightingAdapter A(d.a,d.b,w,R0); eigensolverOutput_t o; o.rotation=R0; rotation_t x=c%2?rp::eigensolver(A,true):rp::eigensolver(A,o,true); R.ev(Reporter::hs("weights")+c,s.t[0]);
    R.err("eigensolver:weights",rotErr(x,s.R),1e-4,0.004,"correspondences of weight zero influence the rotation (n=%d of %d)",n,m);
    if(c%2==0) R.err("eigensolver:weights-translation",fin(o.translation)?(o.translation/o.translation.norm()-s.t/s.t.norm()).norm():INFINITY,1e-3,0.004,"direction %s true %s",vs(o.translation.transpose()).c_str(),vs(s.t.transpose()/s.t.norm()).c_str());
  });
  longRel(R,{{"rotationOnly",1,4,1e-6,0.01,0,3000,false},{"eigensolver",2,15,1e-4,0.02,0.005,3000,false},{"eigensolver_weighted",2,15,1e-4,0.02,0.005,3000,false},{"eigensolver_short",2,15,1e-4,0.02,0.005,3000,false}},200,4000);
}
