// P19  hypotheses of the sample consensus problems from noise-free samples
#include "sacs.hpp"
#include <opengv/relative_pose/methods.hpp>
using namespace vf;
static VI drawSample(Rng&g,ISac&s,const std::vector<char>&bad)
{ VI sz=s.sizes(),r; for(size_t f=0;f<sz.size();f++){ VI good; for(int k:s.frame[f]) if(!bad[k]) good.push_back(k); g.shuffle(good); for(int q=0;q<sz[f]&&q<(int)good.size();q++) r.push_back(good[q]); } return r; }
// share of noise-free samples a solver may lose to its own numerics or, for
// the iterative ones, to local minima (calibrated, see DESIGN.md)
struct Q { const char*nm; double q,tol; };
static const Q table[]={{"abs-gp3p",0.12,1e-4},{"abs-multi",0.12,1e-4},{"eigensolver",0.5,1e-4},{"eigensolver-weighted",0.5,1e-4},{"rel-ge",0.65,1e-2},{"rel-multi-ge",0.7,1e-2},{"rel-sixpt",0.35,1e-3},{"rel-multi-sixpt",0.65,1e-3},{"rel-seventeen",0.005,1e-4},{"rel-multi-seventeen",0.005,1e-4}};
static void check(Reporter&R,Rng&g,int c,const std::string&nm,const std::string&fl)
{
  double q=0.002,tol=1e-4; for(auto&x:table) if(nm==x.nm){ q=x.q; tol=x.tol; }
  bool iter=nm.find("eigensolver")==0||nm.find("-ge")!=std::string::npos,six=nm.find("sixpt")!=std::string::npos,sv=nm.find("seventeen")!=std::string::npos,multi=nm.find("multi")!=std::string::npos;
  if((iter&&(fl=="front"))||(six&&(fl=="rotaxis"||fl=="front"))||(nm.find("rel-multi")==0&&nm.find("ascentral")==std::string::npos&&fl=="norot")) return;
  SacOpt o; o.fl=fl; o.cams=sv||six?g.i(4,6):g.i(2,5); bool rel=nm.find("rel")==0||nm.find("eigen")==0||nm=="transonly"; o.n=c%20==7?(rel||multi?g.i(60,100):g.i(120,300)):multi?g.i(40,80):g.i(20,40); std::vector<char> bad(o.n,0); bool garbage=g.p(0.5);
  auto D=makeSac(g,nm,o,[&](SacData&d){ if(!garbage) return; for(int k=0;k<d.n;k++) if(g.p(0.25)){ bad[k]=1; if(d.kind=='a'){ d.a.f[k]=g.unit(); } else if(d.kind=='p') d.p1[k]=d.scale*g.box(9); else { d.r.f2[k]=g.unit(); } } });
  SacData&d=*D; ISac&s=*d.s; VI sm=drawSample(g,s,bad); int want=0; for(int x:s.sizes()) want+=x; if((int)sm.size()!=want) return; R.ev(Reporter::hs(nm+fl)+c,d.truth.R(0,1)); R.cov("hypotheses "+nm);
  Mod m(Matrix3d::Constant(NAN),Vector3d::Constant(NAN)); bool ok=s.hypothesis(sm,m); double e=ok?d.err(m):INFINITY;
  R.err(nm+(fl=="tiny"||fl=="huge"?"/scaled":"/unit"),e,tol,q,"%s sample %s truth %s got %s%s",fl.c_str(),iv(sm).c_str(),ms(d.truth).c_str(),ms(m).c_str(),ok?"":" (failure reported)");
  if(ok){ R.rate(nm+":finite",!(fin(m.R)&&fin(m.t)),0,"%s: non-finite model %s reported as success, sample %s truth %s",fl.c_str(),ms(m).c_str(),iv(sm).c_str(),ms(d.truth).c_str()); if(fin(m.R)) R.err(nm+":rotation",so3Err(m.R),1e-6,0,"%s: not a rotation: %s",fl.c_str(),ms(m).c_str()); }
  // whenever the rotation was found the translation follows from it
  double re=ok?(m.R-d.truth.R).norm():9; bool ge=nm.find("-ge")!=std::string::npos; if(iter||six) if(re<(ge?3e-4:1e-7)) R.err(nm+":translation-of-correct-rotation",e,ge?0.3:1e-2,0.01,"%s sample %s truth %s got %s",fl.c_str(),iv(sm).c_str(),ms(d.truth).c_str(),ms(m).c_str());
  // a correct rotation among the solutions of the solver must be the chosen one
  if(nm=="rel-sixpt"){ rotations_t rs=rp::sixpt(*d.ra,VI(sm.begin(),sm.begin()+6)); double b=1; for(auto&x:rs) if(fin(x)) b=std::min(b,(x-d.truth.R).norm()); if(b<1e-6) R.err(nm+":choice",re,1e-5,0.01,"%s: the true rotation is among %zu solutions but %s was chosen (truth %s)",fl.c_str(),rs.size(),ms(m).c_str(),ms(d.truth).c_str()); }
}
// several pairs with a model each
static void multiCentral(Reporter&R,Rng&g,int c)
{
  int F=g.i(1,4),S=g.i(8,10); std::vector<RelScene> sc; std::vector<std::shared_ptr<bearingVectors_t> > a,b; for(int f=0;f<F;f++){ RelCase q=makeRelFlavour(g,"std",g.i(14,30),0); sc.push_back(q.s); a.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t(q.s.f1))); b.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t(q.s.f2))); }
  rp::CentralRelativeMultiAdapter A(a,b); sp::relative_pose::MultiCentralRelativePoseSacProblem P(A,S,false); std::vector<VI> ix(F); for(int f=0;f<F;f++) ix[f]=g.subset(sc[f].n(),P.getSampleSizes()[f]);
  transformation_t mark; mark.setConstant(7.25); opengv::transformations_t m(F,mark); bool ok=P.computeModelCoefficients(ix,m); R.ev(Reporter::hs("mc")+c,sc[0].t[0]); R.cov("hypotheses rel-multi-central"); if(!ok) { R.rate("rel-multi-central:failure",true,0.01,"failure reported"); return; }
  bool untouched=(int)m.size()==F; for(auto&x:m) if(x!=mark) untouched=false; if(untouched){ R.fail("rel-multi-central:model-not-computed","success reported but none of the %d models was written",F); return; }
  if((int)m.size()!=F){ R.fail("rel-multi-central:size","%zu models for %d pairs",m.size(),F); return; }
  for(int f=0;f<F;f++){ Mod x=fromModel(m[f]); double e=fin(x.R)&&fin(x.t)?(x.R-sc[f].R).norm()+(x.t.normalized()-sc[f].t.normalized()).norm():INFINITY; R.err("rel-multi-central/model",e,1e-4,0.01,"pair %d of %d",f,F); }
}
// a reported success delivers a model computed from the sample: also on degenerate samples the previous content of the variable does not show
static void marked(Reporter&R,Rng&g,int c,const std::string&nm)
{
  bool six=nm.find("sixpt")!=std::string::npos||nm.find("seventeen")!=std::string::npos; SacOpt o; o.cams=six?5:3; o.n=nm.find("multi")!=std::string::npos?80:40; int how=c%6; Rng h=g;
  auto D=makeSac(g,nm,o,[&](SacData&d){ auto nanv=[](bearingVectors_t&v){ for(auto&x:v) x.setConstant(NAN); }; auto dup=[](bearingVectors_t&v){ for(auto&x:v) x=v[0]; }; bearingVectors_t&f=d.kind=='a'?d.a.f:d.kind=='p'?d.p1:d.r.f2; if(how==0) nanv(f); if(how==1) for(size_t k=0;k<f.size();k+=2) f[k].setConstant(NAN); if(how==2) dup(f); if(how==3) for(auto&x:f) x.setZero(); if(how==4) for(auto&x:f) x=h.unit(); if(how==5&&d.kind!='a'&&d.kind!='p'){ dup(d.r.f1); dup(d.r.f2); } });
  ISac&s=*D->s; std::vector<char> bad(o.n,0); VI sm=drawSample(g,s,bad); int want=0; for(int x:s.sizes()) want+=x; if((int)sm.size()!=want) return; R.ev(Reporter::hs(nm+"marked")+c,D->truth.R(0,1)); Mod m[2]={Mod(Matrix3d::Constant(0.25),Vector3d::Constant(7.5)),Mod(Matrix3d::Constant(-3),Vector3d::Constant(11))}; bool ok[2]; for(int w=0;w<2;w++){ srand(5); ok[w]=s.hypothesis(sm,m[w]); }
  R.cov(str("degenerate samples %s %s",nm.c_str(),ok[0]?"success":"failure")); if(ok[0]!=ok[1]){ R.fail(nm+":marked-return","kind %d sample %s: success %d and %d on the same sample",how,iv(sm).c_str(),ok[0],ok[1]); return; } if(!ok[0]) return;
  double e=0; for(int k=0;k<12;k++){ double x=k<9?m[0].R.data()[k]:m[0].t[k-9],y=k<9?m[1].R.data()[k]:m[1].t[k-9]; if(!(x==y)&&!(x!=x&&y!=y)) e=1; } if(e>0&&(how>1||(fin(m[0].R)&&fin(m[0].t)&&fin(m[1].R)&&fin(m[1].t)))) R.fail(nm+":marked","kind %d sample %s: success reported, but the model depends on what the variable held before: %s and %s",how,iv(sm).c_str(),ms(m[0]).c_str(),ms(m[1]).c_str());
}
void monitor(Reporter&R)
{
  for(auto&nm:sacNames()) R.each(nm+"/degenerate",R.N(nm.find("sixpt")!=std::string::npos?12:60,600),[&](Rng&g,int c){ marked(R,g,c,nm); });
  R.each("rel-multi-central",R.N(200,2000),[&](Rng&g,int c){ multiCentral(R,g,c); });
  static const char*af[]={"std","front","far","near","tiny","huge","shifted","rotaxis"}; static const char*rf[]={"std","front","near","tiny","huge","bigrot","rotaxis","norot"};
  for(auto&nm:sacNames()) for(int f=0;f<8;f++){ std::string fl=nm.compare(0,3,"abs")==0?af[f]:rf[f]; int n=R.N(nm.find("sixpt")!=std::string::npos?30:nm.find("ascentral")!=std::string::npos?80:200,nm.find("sixpt")!=std::string::npos?600:4000); R.each(nm+"/"+fl,n,[&](Rng&g,int c){ check(R,g,c,nm,fl); }); }
}
