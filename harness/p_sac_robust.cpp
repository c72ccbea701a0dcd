// P20  robust estimation with gross outliers over every sample consensus problem
#include "sacs.hpp"
using namespace vf;
static void check(Reporter&R,Rng&g,int c,const std::string&nm,const std::string&fl,int kind)
{
  double q=0.002,tol=1e-3,thr=1e-9; bool ge=nm.find("-ge")!=std::string::npos,six=nm.find("sixpt")!=std::string::npos,sv=nm.find("seventeen")!=std::string::npos,multi=nm.find("multi")!=std::string::npos,ei=nm.find("eigensolver")==0; if(ge||six){ tol=5e-2; thr=1e-4; q=nm=="rel-multi-ge"?0.4:nm=="rel-multi-sixpt"?0.3:0.15; } if(ei) q=0.005; if(nm=="abs-gp3p"||nm=="abs-multi") q=0.005;
  SacOpt o; o.fl=fl; o.cams=sv||six?g.i(4,5):g.i(2,4); int size=nm=="abs-twopt"||nm=="rotonly"||nm=="transonly"?2:nm=="cloud"?3:nm=="abs-epnp"?6:nm.find("abs")==0?4:sv?17:nm=="eigensolver-weighted"?18:ei?10:six||nm=="rel-seven"?9:8; 
  o.n=multi?o.cams*g.i(17,30):g.i(sv?40:25,90); double share=1-pow(0.06,1.0/size); share=g.u(0,std::min(0.45,share)); if(c%7==0) share=0; int no=(int)(share*o.n); VI out=g.subset(o.n,no); if(c%5==1) for(int k=0;k<no;k++) out[k]=k; if(c%5==2) for(int k=0;k<no;k++) out[k]=o.n-1-k; std::vector<char> bad(o.n,0); for(int k:out) bad[k]=1; int guard=0;
  auto D=makeSac(g,nm,o,[&](SacData&d){ for(int k=0;k<d.n;k++) if(bad[k]){ guard=0; do { if(d.kind=='a') d.a.f[k]=g.unit(); else if(d.kind=='p') d.p1[k]=d.scale*g.box(9); else d.r.f2[k]=g.unit(); } while(guard++<1000&&(d.kind=='p'?d.dist(k,d.truth)<0.1*d.scale:!d.clear(k,d.truth)||d.dist(k,d.truth)<0.02)); } });
  SacData&d=*D; ISac&s=*d.s; if(d.kind=='p') thr*=d.scale; VI use=iota(d.n); if(c%3==2){ use=g.subset(d.n,g.i((int)(0.8*d.n),d.n)); s.setIndices(use); }
  VI clean; for(int k:use) if(!bad[k]) clean.push_back(k); std::sort(clean.begin(),clean.end()); if(multi){ VI sz=s.sizes(); std::vector<int> av(o.cams,0); for(int k:clean) av[s.at[k].first]++; for(size_t f=0;f<sz.size();f++) if(av[f]<sz[f]+3) return; }
  s.burn(g.i(50)); R.ev(Reporter::hs(nm+fl)+c,d.truth.R(0,1)); R.cov("runs "+nm+(kind?" lmeds":"")); Mod m; VI inl,smp; int it=0; bool ok=s.robust(kind,thr,kind?200:3000,0.9999,m,inl,smp,it); std::sort(inl.begin(),inl.end()); std::string key=nm+(kind?"/lmeds":"/ransac"); R.cov("iterations "+nm,it); 
  R.rate(key+":success",!ok,q,"%s: failure, %d of %zu are outliers",fl.c_str(),(int)(use.size()-clean.size()),use.size()); if(!ok) return;
  R.err(key+":model",d.err(m),tol,q,"%s: %d of %zu outliers, %d iterations, sample %s, truth %s got %s",fl.c_str(),(int)(use.size()-clean.size()),use.size(),it,iv(smp).c_str(),ms(d.truth).c_str(),ms(m).c_str());
  VI miss,extra; std::set_difference(clean.begin(),clean.end(),inl.begin(),inl.end(),std::back_inserter(miss)); std::set_difference(inl.begin(),inl.end(),clean.begin(),clean.end(),std::back_inserter(extra));
  R.rate(key+":inliers",!miss.empty()||!extra.empty(),q,"%s: clean correspondences not inliers %s, outliers among the inliers %s",fl.c_str(),iv(miss).c_str(),iv(extra).c_str());
}
void monitor(Reporter&R)
{
  static const char*af[]={"std","front","far","near","tiny","huge","shifted","rotaxis"}; static const char*rf[]={"std","front","near","tiny","huge","bigrot","rotaxis","std"};
  for(auto&nm:sacNames()) for(int kind=0;kind<2;kind++) for(int f=0;f<8;f++){ std::string fl=nm.compare(0,3,"abs")==0?af[f]:rf[f]; bool ge=nm.find("-ge")!=std::string::npos,six=nm.find("sixpt")!=std::string::npos,multi=nm.find("multi")!=std::string::npos; if(((ge||six||nm.find("eigensolver")==0)&&(fl=="front"||fl=="rotaxis"))||(multi&&kind)||(kind&&(six||ge||nm.find("seventeen")!=std::string::npos))) continue; int n=R.N(nm=="rel-multi-ge"?60:six?4:ge||nm.find("seventeen")!=std::string::npos?20:30,six?60:600); R.each(nm+"/"+fl+(kind?"/lmeds":""),n,[&](Rng&g,int c){ check(R,g,c,nm,fl,kind); }); }
}
