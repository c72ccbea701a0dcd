// P18  distances of the sample consensus problems
#include "sacs.hpp"
using namespace vf;
static Mod wrong(Rng&g,const SacData&d,int how)
{ Mod m=d.truth; if(how==0) return m; if(how==1){ m.R=m.R*g.rotAxis(g.unit(),g.u(0.001,0.1)); m.t+=0.05*d.scale*g.nv(); } else if(how==2){ m.R=g.rot(); m.t=d.scale*g.box(3); } else if(how==3){ m.t=-m.t; } else { m.t*=g.u(0.1,4); } if(d.kind=='o') m.t.setZero(); return m; }
static void check(Reporter&R,Rng&g,int c,const std::string&nm,const std::string&fl)
{
  SacOpt o; o.fl=fl; o.n=c%12==5?g.i(100,300):g.i(8,40); o.cams=c%7==3?g.i(6,30):g.i(2,5); if(o.cams>5) o.n=std::max(o.n,2*o.cams); o.noise=c%3==0?0:pow(10,g.u(-4,-1)); auto D=makeSac(g,nm,o,[&](SacData&d){ // a share of gross outliers
    if(c%4==1) for(int k=0;k<d.n;k++) if(g.p(0.3)){ if(d.kind=='a') d.a.f[k]=g.unit(); else if(d.kind=='p') d.p1[k]=d.scale*g.box(9); else d.r.f2[k]=g.unit(); } });
  SacData&d=*D; ISac&s=*d.s; R.ev(Reporter::hs(nm+fl)+c,d.truth.R(0,1));
  for(int how=0;how<5;how++)
  {
    Mod m=wrong(g,d,how); VI ix; int L=g.i(0,2*d.n); for(int k=0;k<L;k++) ix.push_back(g.i(d.n)); if(how%2==0){ ix=iota(d.n); g.shuffle(ix); }
    ix=s.multi()?s.group(ix):ix; std::vector<double> v=s.distances(m,ix);
    if(v.size()!=ix.size()){ R.fail(nm+":length","%zu distances for %zu indices",v.size(),ix.size()); continue; }
    for(size_t k=0;k<v.size();k++)
    { double w=d.dist(ix[k],m); if(!d.clear(ix[k],m)){ R.cov("skipped: rays parallel or viewpoint on the point"); continue; } double tol=d.kind=='p'?1e-9*(d.scale+w):2e-9; R.err(nm+":distance",fabs(v[k]-w),tol,0,"correspondence %d of %d has distance %.17g, expected %.17g (%s) model %s truth %s",ix[k],d.n,v[k],w,fl.c_str(),ms(m).c_str(),ms(d.truth).c_str()); R.cov("distances "+nm); }
    // selection and counting agree with the distances of the data the problem works on
    VI sub=how%2?g.subset(d.n,g.i(1,d.n)):iota(d.n); s.setIndices(sub); VI ord=s.multi()?s.group(sub):sub; std::vector<double> w=s.all(m),z=s.distances(m,ord); 
    if(w.size()!=z.size()||memcmp(w.data(),z.data(),sizeof(double)*w.size())) R.fail(nm+":all","distances of all data differ from those of the listed ones");
    double thr=w.empty()?1:w[g.i((int)w.size())]*(g.p(0.5)?1:g.u(0.5,2)); VI want; for(size_t k=0;k<ord.size();k++) if(z[k]<thr) want.push_back(ord[k]);
    VI got=s.select(m,thr); if(got!=want) R.fail(nm+":select","selected %s, closer than %.17g are %s",iv(got).c_str(),thr,iv(want).c_str()); int ct=s.count(m,thr); if(ct!=(int)want.size()) R.fail(nm+":count","counted %d, %zu are closer than %.17g",ct,want.size(),thr);
  }
  // a model that is not a pose has no correspondences
  { Mod m=d.truth; int w=g.i(d.kind=='o'?2:3); if(w==0) m.R(g.i(3),g.i(3))=NAN; else if(w==1) m.R.setConstant(NAN); else m.t[g.i(3)]=NAN; if(w==0) m.R.row(g.i(3)).setConstant(NAN); VI ix=iota(d.n); if(s.multi()) ix=s.group(ix); if(w==1||d.kind=='p'){ s.setIndices(iota(d.n)); for(double x:s.distances(m,ix)) if(x<1){ R.fail(nm+":nan-model","distance %.17g to a model full of NaN",x); break; } if(s.count(m,1.0)) R.fail(nm+":nan-model-count","%d correspondences are close to a model full of NaN",s.count(m,1.0)); R.cov("models full of NaN"); } }
}
// several pairs with a model each
static void multiCentral(Reporter&R,Rng&g,int c)
{
  int F=g.i(1,5); std::vector<RelScene> sc; std::vector<std::shared_ptr<bearingVectors_t> > a,b; opengv::transformations_t mod; double w;
  for(int f=0;f<F;f++){ RelCase q=makeRelFlavour(g,relFlavours()[g.i((int)relFlavours().size())],c%12==5?g.i(100,250):g.i(1,20),0); for(auto&x:q.s.f2){ x+=0.01*g.nv(); x/=x.norm(); } sc.push_back(q.s); a.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t(q.s.f1))); b.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t(q.s.f2))); transformation_t T; toModel(Mod(q.s.R*g.rotMax(0.1),q.s.t*g.u(0.5,2)),T); mod.push_back(T); }
  rp::CentralRelativeMultiAdapter A(a,b); sp::relative_pose::MultiCentralRelativePoseSacProblem P(A,8,false); std::vector<VI> ix(F); for(int f=0;f<F;f++){ int L=c%12==5?g.i(80,300):g.i(0,25); for(int k=0;k<L;k++) ix[f].push_back(g.i(sc[f].n())); } std::vector<std::vector<double> > v(F); P.getSelectedDistancesToModel(mod,ix,v); R.ev(Reporter::hs("mc")+c,sc[0].t[0]);
  for(int f=0;f<F;f++){ if(v[f].size()!=ix[f].size()){ R.fail("rel-multi-central:length","%zu distances for %zu indices of pair %d",v[f].size(),ix[f].size(),f); continue; } SacData d; d.kind='r'; d.r=sc[f]; d.scale=1e-3; Mod m=fromModel(mod[f]);
    for(size_t k=0;k<v[f].size();k++){ if(!d.clear(ix[f][k],m)) continue; w=d.dist(ix[f][k],m); R.err("rel-multi-central:distance",fabs(v[f][k]-w),2e-9,0,"pair %d correspondence %d has distance %.17g, expected %.17g",f,ix[f][k],v[f][k],w); R.cov("distances rel-multi-central"); } }
}
void monitor(Reporter&R)
{
  static const char*af[]={"std","front","far","near","tiny","huge","shifted","rotaxis"}; static const char*rf[]={"std","front","near","tiny","huge","bigrot","rotaxis","forward"};
  for(auto&nm:sacNames()) for(int f=0;f<8;f++){ std::string fl=nm.compare(0,3,"abs")==0?af[f]:rf[f]; R.each(nm+"/"+fl,R.N(60,1500),[&](Rng&g,int c){ check(R,g,c,nm,fl); }); }
  R.each("rel-multi-central",R.N(400,8000),[&](Rng&g,int c){ multiCentral(R,g,c); });
}
