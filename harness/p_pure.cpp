// P24  inputs untouched, calls repeatable in whatever history
#include "worlds.hpp"
using namespace vf;
static void check(Reporter&R,Rng&g,int c,const std::string&w,const WOpt&o)
{
  uint64_t seed=g.next(); Rng a(seed),b(seed); auto W=makeWorld(a,w,o); Raw s0=W->snap(); size_t n=W->calls.size(); std::vector<Raw> ref(n); bool touched=false;
  auto site=[](std::string s){ size_t k=s.find('/'); return s.substr(0,k); };
  auto snap=[&](size_t k,const char*when){ Raw s=W->snap(); if(!touched&&!sameBits(s0,s)){ touched=true; R.fail("inputs:"+site(W->calls[k].name),"%s (%s): the call changed its inputs: %s",W->calls[k].name.c_str(),when,firstDiff(s0,s).c_str()); } };
  for(size_t k=0;k<n;k++){ ref[k]=call(W->calls[k]); snap(k,"first run"); R.ev(Reporter::h(Reporter::hs(W->calls[k].name),seed)); } R.cov("calls "+w,n);
  VI hist; for(int rep=0;rep<2;rep++) for(size_t k=0;k<n;k++) hist.push_back((int)k); g.shuffle(hist); size_t H=std::min(hist.size(),(size_t)80);
  for(size_t h=0;h<H;h++){ const Call&x=W->calls[hist[h]]; Raw r=call(x); if(x.det&&sane(o.hostile)&&!sameBits(ref[hist[h]],r)) R.fail("repeat:"+site(x.name),"%s after %zu other calls: %s",x.name.c_str(),h+n,firstDiff(ref[hist[h]],r).c_str()); R.cov("repeated calls"); } snap(hist[0],"history");
  // a second, fresh instance in another order
  auto V=makeWorld(b,w,o); VI ord=iota((int)n); g.shuffle(ord); for(size_t h=0;h<std::min(n,(size_t)60);h++){ const Call&x=V->calls[ord[h]]; Raw r=call(x); if(x.det&&sane(o.hostile)&&!sameBits(ref[ord[h]],r)) R.fail("fresh:"+site(x.name),"%s on fresh objects: %s",x.name.c_str(),firstDiff(ref[ord[h]],r).c_str()); R.cov("calls on fresh objects"); }
}
void monitor(Reporter&R)
{
  for(auto&w:worldNames()){ bool six=w.find("sixpt")!=std::string::npos||w.find("-ge")!=std::string::npos; int n=w=="abs"||w=="rel"?60:w=="math"?20:six?4:20;
    for(auto&h:hostiles()){ if(h=="allnan"||h=="denormal") continue; int m=h=="none"?3*n:n/4+1; R.each(w+"/"+h,R.N(m,m*15),[&](Rng&g,int c){ WOpt o; o.hostile=h; o.minimal=c%3==0; o.big=c%7==4; o.slow=c%10==0; static const char*fl[]={"std","std","near","tiny","rotaxis"}; o.fl=fl[c%5]; check(R,g,c,w,o); }); } }
}
