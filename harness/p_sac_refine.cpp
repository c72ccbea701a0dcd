// P21  refinement of consensus models on their inliers
#include "sacs.hpp"
using namespace vf;
static double cost(const SacData&d,const VI&ix,const Mod&m){ if(!fin(m.R)||!fin(m.t)) return INFINITY; double s=0; for(int k:ix){ double x=d.dist(k,m); s+=x*x; } return s; }
static void check(Reporter&R,Rng&g,int c,const std::string&nm,const std::string&fl)
{
  bool multi=nm.find("multi")!=std::string::npos,eig=nm.compare(0,11,"eigensolver")==0,closed=eig||nm=="rotonly"||nm=="cloud"; bool small=c%5==4,zw=nm=="eigensolver-weighted"&&c%3==0; SacOpt o; o.fl=fl; o.cams=c%11==10?g.i(6,20):g.i(3,5); o.n=multi?g.i(40,80):g.i(25,60); if(o.cams>5) o.n=std::max(o.n,4*o.cams); o.noise=c%3==0?0:pow(10,g.u(-4,-2)); std::vector<char> bad(o.n,0); for(int k=0;k<o.n;k++) bad[k]=g.p(0.3);
  std::shared_ptr<SacData> D[2]; Rng g0=g; for(int w=0;w<2;w++){ Rng a=g0; Rng h(77+w,c); D[w]=makeSac(a,nm,o,[&](SacData&d){ if(zw){ d.w.assign(d.n,0); Rng q(5,c); for(int k=0;k<d.n;k++) if(!bad[k]) d.w[k]=q.u(0.2,2); } for(int k=0;k<d.n;k++) if(bad[k]){ if(d.kind=='a'){ d.a.f[k]=h.unit(); d.a.p[k]+=d.scale*h.box(3); } else if(d.kind=='p') d.p1[k]=d.scale*h.box(9); else d.r.f2[k]=h.unit(); } }); g=a; }
  SacData&d=*D[0]; if(M_PI-angleOf(d.truth.R)<0.05){ R.cov("skipped: half-turn, not representable by the Cayley parameters"); return; } VI clean; for(int k=0;k<d.n;k++) if(!bad[k]&&d.clear(k,d.truth)) clean.push_back(k); g.shuffle(clean); int lo=20; if(small) lo=nm=="rotonly"||nm=="cloud"?3:eig?10:d.kind=='a'?6:10; if((int)clean.size()<lo) return; clean.resize(small?g.i(lo,std::min(lo+4,(int)clean.size())):g.i(lo,(int)clean.size())); VI ix=multi?d.s->group(clean):clean,ox=ix; std::string nm0=nm,sm=small?"/few":"";
  if(zw){ for(int k=0;k<d.n;k++) if(bad[k]&&g.p(0.5)) ix.push_back(k); g.shuffle(ix); R.cov("inlier lists with correspondences of zero weight"); }
  Mod st=d.truth; double pr=o.noise==0?0:g.u(0,3)*std::max(o.noise,1e-4); if(c%4==3) pr=g.u(0.002,0.02); if(pr>0){ st.R=st.R*g.rotAxis(g.unit(),pr); if(d.kind!='o') st.t+=pr*d.scale*g.nv(); }
  double c0=cost(d,ox,st),ct=cost(d,ox,d.truth); Mod m=d.s->refine(ix,st); double c1=cost(d,ox,m); R.ev(Reporter::hs(nm+fl)+c,d.truth.R(0,1)); R.cov("refinements "+nm);
  R.rate(nm+":finite",!(fin(m.R)&&fin(m.t)),0,"%s: non-finite refinement %s of %s",fl.c_str(),ms(m).c_str(),ms(st).c_str()); if(!fin(m.R)||!fin(m.t)) return; R.err(nm+":rotation",so3Err(m.R),1e-6,0,"%s: not a rotation: %s",fl.c_str(),ms(m).c_str());
  if(o.noise==0&&(nm=="rotonly"||nm=="cloud"||(zw&&pr<0.01))) R.err(nm+sm+":exact",d.err(m),1e-5,zw?0.02:0,"%s: noise-free data, truth %s refined to %s (%zu inliers)",fl.c_str(),ms(d.truth).c_str(),ms(m).c_str(),ix.size());
  if(o.noise==0&&pr==0) R.err(nm+sm+":stays",d.err(m),1e-6,0.003,"%s: noise-free truth %s refined to %s (%zu inliers)",fl.c_str(),ms(d.truth).c_str(),ms(m).c_str(),ix.size());
  double u=d.kind=='p'?d.scale*d.scale:1; double base=closed?std::max(c0,ct):c0; if(!small||!closed) R.err(nm+sm+":cost",(c1-1e-18*u)/(base+1e-24*u),closed?2.0:1.02,eig?0.06:0.005,"%s: cost %.6g before, %.6g after, %.6g at the truth, noise %.2g start %s got %s",fl.c_str(),c0,c1,ct,o.noise,ms(st).c_str(),ms(m).c_str());
  if(o.noise>0) if(!small) R.err(nm+":better-than-truth",c1/(ct+1e-24*u),closed?2.0:1.1,eig?0.08:0.008,"%s: cost %.6g before, %.6g after, %.6g at the truth, noise %.2g start %s got %s",fl.c_str(),c0,c1,ct,o.noise,ms(st).c_str(),ms(m).c_str());
  Mod m2=D[1]->s->refine(ix,st); bool same=m.R==m2.R&&m.t==m2.t; R.rate(nm+":foreign-data",!same,0,"%s: correspondences outside the inlier list change the result: %s instead of %s",fl.c_str(),ms(m2).c_str(),ms(m).c_str());
}
void monitor(Reporter&R)
{
  static const char*af[]={"std","front","far","near","tiny","huge","shifted","rotaxis"}; static const char*rf[]={"std","front","near","tiny","huge","bigrot","rotaxis","std"};
  for(auto&nm:sacNames()) for(int f=0;f<8;f++){ std::string fl=nm.compare(0,3,"abs")==0?af[f]:rf[f]; R.each(nm+"/"+fl,R.N(40,1000),[&](Rng&g,int c){ check(R,g,c,nm,fl); }); }
}
