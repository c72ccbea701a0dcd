// P06  multi-camera relative pose solvers
#include "scenes.hpp"
#include "long.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
using namespace vf; using namespace opengv; namespace rp=opengv::relative_pose;
struct Emb { bearingVectors_t a,b; std::vector<int> ca,cb,pos; };
static Emb embed(Rng&g,const RelScene&s,int extra)
{ Emb d; int n=s.n(),m=n+extra,C=(int)s.co.size(); d.pos=g.subset(m,n); d.a.resize(m); d.b.resize(m); d.ca.resize(m); d.cb.resize(m); for(int k=0;k<m;k++){ d.a[k]=g.unit(); d.b[k]=g.unit(); d.ca[k]=g.i(C); d.cb[k]=g.i(C); } for(int k=0;k<n;k++){ int p=d.pos[k]; d.a[p]=s.f1[k]; d.b[p]=s.f2[k]; d.ca[p]=s.c1[k]; d.cb[p]=s.c2[k]; } return d; }
static Emb plain(const RelScene&s){ Emb d; d.a=s.f1; d.b=s.f2; d.ca=s.c1; d.cb=s.c2; d.pos=iota(s.n()); return d; }
static double q17(const std::string&fl); static double q6(const std::string&fl); static double qge(const std::string&fl);
void monitor(Reporter&R)
{
  for(auto&fl:relFlavours()) R.each("seventeen/"+fl,R.N(600,15000),[&](Rng&g,int c)
  {
    int n=c%3==0?17:g.i(17,50),cams=c%2?g.i(4,8):g.i(4,16); bool same=c%4==1; double off=c%3==1?0.2:c%3==2?2.0:0.5;
    RelCase q=makeRelFlavour(g,fl,n,cams,off,same); RelScene&s=q.s; bool sub=c%2; Emb d=sub?embed(g,s,g.i(1,9)):plain(s);
    rp::NoncentralRelativeAdapter A(d.a,d.b,d.ca,d.cb,s.co,s.cr); if(c%5<2){ A.setR12(g.rot()); A.sett12(g.box(2)); } R.ev(Reporter::hs(fl)+c,s.t[0]);
    transformation_t T=sub?rp::seventeenpt(A,d.pos):rp::seventeenpt(A); double re=fin(T)?rotErr(T.block<3,3>(0,0),s.R):INFINITY,te=fin(T)?(T.col(3)-s.t).norm()/s.t.norm():INFINITY;
    std::string k=(same?"same/":"cross/")+fl; // (the scale is not observable without rotation when every point is seen by the same camera twice)
    R.err("seventeen:rotation/"+k,re,1e-6,q17(fl),"got %s true %s n=%d cams=%d",vs(T).c_str(),vs(s.R).c_str(),n,cams);
    if(!same||(fl!="norot"&&fl!="rotaxis")) R.err("seventeen:translation/"+k,te,1e-5,q17(fl),"got %s true %s n=%d cams=%d",vs(T.col(3).transpose()).c_str(),vs(s.t.transpose()).c_str(),n,cams);
    R.err("seventeen:valid",fin(T)?so3Err(T.block<3,3>(0,0)):INFINITY,1e-9,0.0005,"rotation part is no rotation (%s)",fl.c_str());
  });
  static const char*sf[]={"std","front","near","far","huge","tiny","smallrot","sideways","bigbase"};
  for(auto fn:sf) R.each(str("sixpt/%s",fn),R.N(150,5000),[&](Rng&g,int c)
  {
    std::string fl=fn; int cams=c%3==0?6:g.i(4,8); RelCase q=makeRelFlavour(g,fl,6,cams,c%2?0.5:1.5,false); RelScene&s=q.s; bool sub=c%2; Emb d=sub?embed(g,s,g.i(1,9)):plain(s);
    rp::NoncentralRelativeAdapter A(d.a,d.b,d.ca,d.cb,s.co,s.cr); rotations_t v=sub?rp::sixpt(A,d.pos):rp::sixpt(A); R.ev(Reporter::hs(fl)+c,s.t[0]);
    double e=INFINITY; for(auto&x:v) e=std::min(e,rotErr(x,s.R)); R.err("sixpt:truth/"+fl,e,1e-3,q6(fl),"none of the %zu rotations is the true one %s cams=%d",v.size(),vs(s.R).c_str(),cams);
    if(v.size()>64) R.fail("sixpt:count","%zu solutions",v.size()); for(auto&x:v) R.err("sixpt:valid",so3Err(x),1e-7,0.002,"no rotation matrix: %s",vs(x).c_str());
  });
  static const char*gf[]={"std","near","huge","tiny","smallrot","bigbase"};
  for(auto fn:gf) R.each(str("ge/%s",fn),R.N(400,12000),[&](Rng&g,int c)
  {
    std::string fl=fn; bool few=c>=R.N(200,6000); int n=few?g.i(8,20):g.i(30,80),cams=g.i(4,8); RelCase q=makeRelFlavour(g,fl,0,cams,0.5,false); RelScene s=q.s; double k=q.scale; s.R=g.rotMax(0.2); s.p.clear(); for(int i=0;i<n;i++) s.add(k*g.u(fl=="near"?2.5:4,fl=="near"?4:8)*g.unit(),i%cams,g.i(cams));
    bool sub=c%2; Emb d=sub?embed(g,s,g.i(1,9)):plain(s); rp::NoncentralRelativeAdapter A(d.a,d.b,d.ca,d.cb,s.co,s.cr); geOutput_t o; o.rotation=s.R; int w=c%3==0; bool out=c%4<2; rotation_t x=out?(sub?rp::ge(A,d.pos,o,w):rp::ge(A,o,w)):(sub?rp::ge(A,d.pos,w):rp::ge(A,w)); R.ev(Reporter::hs(fl)+c,s.t[0]);
    std::string fk=few?str("few%d/",n/4*4)+fl:fl; double fq=few?n<12?0.3:n<16?0.12:n<20?0.035:0.03:qge(fl); R.err("ge:rotation/"+fk,rotErr(x,s.R),3e-3,fq,"got %s true %s n=%d cams=%d",vs(x).c_str(),vs(s.R).c_str(),n,cams); R.err("ge:valid",so3Err(x),1e-9,0.001,"no rotation matrix");
    if(!out) return; if(memcmp(x.data(),o.rotation.data(),72)) R.fail("ge:output","returned rotation differs from output.rotation");
    double te=fin(o.translation)?(o.translation.head<3>()-s.t).norm()/s.t.norm():INFINITY; R.err("ge:translation/"+fk,te,0.02,fq,"got %s true %s",vs(o.translation.transpose()).c_str(),vs(s.t.transpose()).c_str());
    // G = sum w g g^T, g=(n, n.(R v2 - v1)), n = f1 x R f2, at the returned rotation, from the data
    Eigen::Matrix4d G=Eigen::Matrix4d::Zero(); for(int k=0;k<n;k++){ Vector3d f1=s.cr[s.c1[k]]*s.f1[k],f2=x*(s.cr[s.c2[k]]*s.f2[k]),m=f1.cross(f2); Eigen::Vector4d v; v<<m,m.dot(x*s.co[s.c2[k]]-s.co[s.c1[k]]); G+=(w?1/sqrt((double)n):1.0)*v*v.transpose(); }
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> S(G); Eigen::Vector4d ev=S.eigenvalues().reverse(); double sc=ev[0],es=o.eigenvalues[0]/sc;
    R.err("ge:eigenvalues",fin(o.eigenvalues)&&sc>0?(o.eigenvalues/o.eigenvalues[0]-ev/sc).norm():INFINITY,1e-9,0.0005,"eigenvalues %s, those of the normal matrix are (up to scale) %s",vs(o.eigenvalues.transpose()).c_str(),vs(ev.transpose()).c_str());
    double r=0; for(int j=0;j<4;j++){ Eigen::Vector4d v=o.eigenvectors.col(j); r=std::max(r,(es*G*v-o.eigenvalues[j]*v).norm()/o.eigenvalues[0]+fabs(v.norm()-1)); }
    R.err("ge:eigenvectors",fin(o.eigenvectors)?r:INFINITY,1e-9,0.0005,"eigenvectors do not belong to the eigenvalues (%s)",fn);
    Eigen::Vector4d l=o.eigenvectors.col(3); R.err("ge:pairing",fin(o.translation)?(o.translation*l[3]-l).norm():INFINITY,1e-9,0.0005,"translation is not the last eigenvector, made homogeneous");
    if(rotErr(x,s.R)<1e-2) R.err("ge:homogeneous",fabs(o.translation[3]-1),1e-9,0.001,"last entry %g",o.translation[3]);
  });
  longRel(R,{{"seventeenpt",5,25,1e-4,0.02,0,2000,true},{"ge",4,40,3e-3,0.12,0,2000,true},{"ge_short_weighted",4,40,3e-3,0.12,0,2000,true}},150,3000);
}
static double q17(const std::string&){ return 0.001; } static double qge(const std::string&){ return 0.006; }
static double q6(const std::string&fl){ return fl=="front"?0.35:fl=="sideways"?0.18:fl=="smallrot"?0.03:0.09; }
