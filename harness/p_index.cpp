// P23  index lists, adapters and positions of the data do not matter
#include "solvers.hpp"
using namespace vf;
// numerically identical up to rounding (any NaN equals any NaN)
static bool same(const Sol&a,const Sol&b){ if(a.raw.size()!=b.raw.size()) return false; for(size_t k=0;k<a.raw.size();k++) if(!(fabs(a.raw[k]-b.raw[k])<=1e-8*(fabs(a.raw[k])+1e-3))&&!(a.raw[k]==b.raw[k])&&!(a.raw[k]!=a.raw[k]&&b.raw[k]!=b.raw[k])) return false; return true; }
template<class S,class A> static Sol call(const S&s,A&a,const VI*ix){ srand(5); return s.run(a,ix); }
static void noise(Rng&g,bearingVectors_t&v,double n){ if(n>0) for(auto&f:v){ f+=n*g.nv(); f/=f.norm(); } }
static VI blow(Rng&g,const VI&pos,int c){ VI r=pos; if(c%3==1) for(int k=g.i(1,3);k>0;k--) r.push_back(pos[g.i((int)pos.size())]); return r; }

static void absolute(Reporter&R,Rng&g,int c,const AbsSolver&s,const std::string&fl)
{
  bool rig=s.rig==2||(s.rig==1&&c%2); int n=s.need+(!s.exact&&c%40==7?g.i(60,c%200==7?600:200):!s.exact&&c==90&&(fl=="std"||fl=="huge")?g.i(4097,4600):c%4==0?0:g.i(0,12)),cams=rig?c%9==4?g.i(5,40):g.i(1,4):0; AbsCase q; do q=makeAbsFlavour(g,fl,n,cams); while(s.prior==2&&M_PI-angleOf(q.s.R)<0.05); noise(g,q.s.f,c%3?pow(10,g.u(-6,-2)):0); AbsScene&z=q.s; if(rig&&c%2) for(int k=0;k<n;k++){ int a=g.i(cams); Vector3d w=z.p[k]; AbsScene y=z; y.f.clear(); y.p.clear(); y.cc.clear(); y.add(w,a); z.f[k]=y.f[0]; z.cc[k]=a; }
  if(z.cr.size()==1&&!rig){ }
  Matrix3d P=z.R*g.rotMax(0.05); Vector3d t=z.t+0.05*q.scale*g.nv(); if(s.prior==1) P=z.R; int how=rig?1:0; R.ev(Reporter::hs(s.name+fl)+c,z.t[0]); R.cov("calls "+s.name);
  auto fail=[&](const char*what,const Sol&a,const Sol&b,const VI&ix){ R.fail(s.name+":"+what,"%s n=%d indices %s: %s against %s",fl.c_str(),n,iv(ix).c_str(),rs(a).c_str(),rs(b).c_str()); };
  // the scene among foreign correspondences, at arbitrary positions
  int m=n+g.i(0,9); VI pos=g.subset(m,n); AbsScene big[2]; for(int w=0;w<2;w++){ AbsScene&b=big[w]; b=z; b.f.resize(m); b.p.resize(m); b.cc.assign(m,0); for(int k=0;k<m;k++){ b.f[k]=g.unit(); b.p[k]=10*q.scale*g.nv(); b.cc[k]=g.i((int)z.co.size()); } for(int k=0;k<n;k++){ b.f[pos[k]]=z.f[k]; b.p[pos[k]]=z.p[k]; b.cc[pos[k]]=z.cc[k]; } }
  VI list=blow(g,iota(n),c); AbsScene y=subScene(z,list); VI ix; for(int k:list) ix.push_back(pos[k]);
  auto A=absAdapter(y,how); prior(*A->a,P,t); Sol r0=call(s,*A->a,0); R.cov("solutions",r0.v.size());
  { VI all=s.exact?iota(s.need):iota(y.n()); Sol r=call(s,*A->a,&all); if(!same(r,r0)) fail("all-indices",r0,r,all); if(s.exact){ all=iota(y.n()); r=call(s,*A->a,&all); if(!same(r,r0)) fail("longer-list",r0,r,all); } }
  for(int w=0;w<2;w++){ auto B=absAdapter(big[w],how); prior(*B->a,P,t); VI keep=ix; Sol r=call(s,*B->a,&ix); if(!same(r,r0)) fail(w?"foreign-data":"subset",r0,r,ix); if(keep!=ix) R.fail(s.name+":list-changed","index list modified"); }
  if(!rig){ auto B=absAdapter(big[0],1); prior(*B->a,P,t); Sol r=call(s,*B->a,&ix); if(!same(r,r0)) fail("noncentral-adapter",r0,r,ix); }
  if(rig){ auto B=absAdapter(big[0],2); prior(*B->a,P,t); VI jx; for(int k:ix) jx.push_back(B->order[k]); Sol r=call(s,*B->a,&jx); if(!same(r,r0)) fail("multi-adapter",r0,r,jx); }
  // single-index overloads
  auto B=absAdapter(big[1],how); prior(*B->a,P,t); ap::AbsoluteAdapterBase&a=*B->a; Sol r; size_t i=ix[0],j=ix[1],k=ix.size()>2?ix[2]:0; bool have=true; if(s.name=="p2p") r=Sol::one('T',ap::p2p(a,i,j)); else if(s.name=="p3p_kneip") r=Sol::many('P',ap::p3p_kneip(a,i,j,k)); else if(s.name=="p3p_gao") r=Sol::many('P',ap::p3p_gao(a,i,j,k)); else if(s.name=="gp3p") r=Sol::many('P',ap::gp3p(a,i,j,k)); else have=false; if(have&&!same(r,r0)) fail("listed-one-by-one",r0,r,ix);
}
static void relative(Reporter&R,Rng&g,int c,const RelSolver&s,const std::string&fl)
{
  bool rig=s.rig==2||(s.rig==1&&c%2); int n=s.need+(!s.exact&&c%40==7?g.i(60,c%200==7?600:200):!s.exact&&c==90&&(fl=="std"||fl=="huge")?g.i(4097,4600):c%4==0?0:g.i(0,12)),cams=rig?c%9==4?g.i(5,40):g.i(2,4):0; bool samecam=c%2; RelCase q; do q=makeRelFlavour(g,fl,n,cams,0.5,samecam); while(s.prior==2&&M_PI-angleOf(q.s.R)<0.05); double nz=c%3?pow(10,g.u(-6,-2)):0; noise(g,q.s.f1,nz); noise(g,q.s.f2,nz); RelScene&z=q.s;
  Matrix3d P=z.R*g.rotMax(0.05); Vector3d t=z.t+0.05*q.scale*g.nv(); if(s.name.find("twopt")==0) P=z.R; int how=rig?1:0; R.ev(Reporter::hs(s.name+fl)+c,z.t[0]); R.cov("calls "+s.name);
  auto fail=[&](const char*what,const Sol&a,const Sol&b,const VI&ix){ R.fail(s.name+":"+what,"%s n=%d indices %s: %s against %s",fl.c_str(),n,iv(ix).c_str(),rs(a).c_str(),rs(b).c_str()); };
  int m=n+g.i(0,9); VI pos=g.subset(m,n); std::vector<double> wb(m); RelScene big[2]; for(auto&x:wb) x=g.u(0.2,2); for(int w=0;w<2;w++){ RelScene&b=big[w]; b=z; b.p.clear(); b.f1.resize(m); b.f2.resize(m); b.c1.assign(m,0); b.c2.assign(m,0); for(int k=0;k<m;k++){ b.f1[k]=g.unit(); b.f2[k]=g.unit(); b.c1[k]=g.i((int)z.co.size()); b.c2[k]=samecam?b.c1[k]:g.i((int)z.co.size()); } for(int k=0;k<n;k++){ b.f1[pos[k]]=z.f1[k]; b.f2[pos[k]]=z.f2[k]; b.c1[pos[k]]=z.c1[k]; b.c2[pos[k]]=z.c2[k]; } }
  bool five=s.name=="fivept_kneip"||s.name=="sixpt"; VI list=five?iota(s.need):blow(g,iota(n),c); RelScene y=subScene(z,list); VI ix; std::vector<double> wy; for(int k:list){ ix.push_back(pos[k]); wy.push_back(wb[pos[k]]); } bool wt=s.name.find("weighted")!=std::string::npos&&!rig; if(wt) how=3;
  auto A=relAdapter(y,how,wy); prior(*A->a,P,t); Sol r0=call(s,*A->a,0); R.cov("solutions",r0.v.size());
  { VI all=s.exact?iota(s.need):iota(y.n()); Sol r=call(s,*A->a,&all); if(!same(r,r0)) fail("all-indices",r0,r,all); if(s.exact&&!five){ all=iota(y.n()); r=call(s,*A->a,&all); if(!same(r,r0)) fail("longer-list",r0,r,all); } }
  for(int w=0;w<2;w++){ auto B=relAdapter(big[w],how,wb); if(w&&wt){ std::vector<double> w2=wb; for(int k=0;k<m;k++) if(std::find(ix.begin(),ix.end(),k)==ix.end()) w2[k]=50; B=relAdapter(big[w],how,w2); } prior(*B->a,P,t); VI keep=ix; Sol r=call(s,*B->a,&ix); if(!same(r,r0)) fail(w?"foreign-data":"subset",r0,r,ix); if(keep!=ix) R.fail(s.name+":list-changed","index list modified"); }
  if(!rig&&!wt){ auto B=relAdapter(big[0],1); prior(*B->a,P,t); Sol r=call(s,*B->a,&ix); if(!same(r,r0)) fail("noncentral-adapter",r0,r,ix); auto M=relAdapter(big[0],4); prior(*M->a,P,t); VI jx; for(int k:ix) jx.push_back(M->order[k]); r=call(s,*M->a,&jx); if(!same(r,r0)) fail("multi-adapter",r0,r,jx); }
  if(rig&&samecam){ auto B=relAdapter(big[0],2); prior(*B->a,P,t); VI jx; for(int k:ix) jx.push_back(B->order[k]); Sol r=call(s,*B->a,&jx); if(!same(r,r0)) fail("multi-adapter",r0,r,jx); }
  auto B=relAdapter(big[1],how,wb); prior(*B->a,P,t); rp::RelativeAdapterBase&a=*B->a; size_t i=ix[0],j=ix[1]; Sol r; bool have=true; if(s.name=="twopt") r=Sol::one('T',rp::twopt(a,false,i,j)); else if(s.name=="twopt_unrotate") r=Sol::one('T',rp::twopt(a,true,i,j)); else if(s.name=="twopt_rotationOnly") r=Sol::one('R',rp::twopt_rotationOnly(a,i,j)); else have=false; if(have&&!same(r,r0)) fail("listed-one-by-one",r0,r,ix);
  if(s.name=="fivept_nister") for(int w=0;w<2;w++){ auto X=relAdapter(big[1],w,wb),Y=relAdapter(subScene(z,iota(n)),w); prior(*X->a,z.R,z.t); prior(*Y->a,z.R,z.t); if(w&&rig) continue; int k=g.i(n); for(int h=0;h<2;h++){ Vector3d u=h?tri::triangulate2(*X->a,pos[k]):tri::triangulate(*X->a,pos[k]),v=h?tri::triangulate2(*Y->a,k):tri::triangulate(*Y->a,k); if(!(u==v)&&fin(u)) R.fail("triangulation:index","triangulated %s instead of %s",vs(u.transpose()).c_str(),vs(v.transpose()).c_str()); } }
}
static void cloud(Reporter&R,Rng&g,int c,const PcSolver&s,const std::string&fl)
{
  double k0=fl=="tiny"?1e-3:fl=="huge"?1e3:1; int n=s.need+(c%40==7?g.i(60,600):c==90?g.i(4097,5000):c%4==0?0:g.i(0,20)),m=n+g.i(0,9); Matrix3d Q=g.rotMax(2.5); Vector3d t=k0*g.box(3); points_t a(n),b(n); for(int k=0;k<n;k++){ b[k]=k0*g.box(4); a[k]=Q*b[k]+t+(c%3?0.01*k0:0)*g.nv(); }
  VI pos=g.subset(m,n),list=blow(g,iota(n),c),ix; points_t ya,yb; for(int k:list){ ya.push_back(a[k]); yb.push_back(b[k]); ix.push_back(pos[k]); } pc::PointCloudAdapter A(ya,yb); Matrix3d P=Q*g.rotMax(0.05); Vector3d u=t+0.05*k0*g.nv(); prior(A,P,u); Sol r0=call(s,A,0); R.ev(Reporter::hs(s.name+fl)+c,t[0]); R.cov("calls "+s.name);
  VI all=iota((int)ya.size()); Sol r=call(s,A,&all); if(!same(r,r0)) R.fail(s.name+":all-indices","%s against %s",rs(r0).c_str(),rs(r).c_str());
  for(int w=0;w<2;w++){ points_t ba(m),bb(m); for(int k=0;k<m;k++){ ba[k]=20*k0*g.nv(); bb[k]=20*k0*g.nv(); } for(int k=0;k<n;k++){ ba[pos[k]]=a[k]; bb[pos[k]]=b[k]; } pc::PointCloudAdapter B(ba,bb); prior(B,P,u); r=call(s,B,&ix); if(!same(r,r0)) R.fail(s.name+":subset","indices %s: %s against %s",iv(ix).c_str(),rs(r0).c_str(),rs(r).c_str()); }
}
void monitor(Reporter&R)
{
  static const char*af[]={"std","front","near","huge","plane0","lattice"}; static const char*rf[]={"std","front","near","huge","sideways","smallrot"};
  for(auto&s:absSolvers()) for(auto f:af) R.each(s.name+"/"+f,R.N(150,4000),[&](Rng&g,int c){ absolute(R,g,c,s,f); });
  for(auto&s:relSolvers()) for(auto f:rf) R.each(s.name+"/"+f,R.N(s.name=="sixpt"?12:150,s.name=="sixpt"?250:4000),[&](Rng&g,int c){ relative(R,g,c,s,f); });
  for(auto&s:pcSolvers()) for(auto f:{"std","tiny","huge"}) R.each(s.name+"/"+f,R.N(300,6000),[&](Rng&g,int c){ cloud(R,g,c,s,f); });
}
