// P17  drawing minimal samples
#include "consensus.hpp"
#include "sacs.hpp"
using namespace vf; namespace sac=opengv::sac;
void monitor(Reporter&R)
{
  Plan base; memset(&base,0,sizeof base); base.threshold=1; base.seed=1;
  R.each("draw",R.N(1500,60000),[&](Rng&g,int c)
  {
    Plan p=base; p.seed=g.next(); int n=g.i(1,c%9==0?1000:50), size=g.i(1,std::min(n,10)); if(c%11==0) size=n; if(c%13==0) size=n+g.i(1,3);
    if(c%5==1) p.pBadSample=g.u(0,0.9); if(c%17==4){ n=g.i(50,3000); size=g.i(10,std::min(n,400)); } LogProblem pr(p,size,c%2); if(c%5==1&&g.p(0.5)) pr.max_sample_checks_=g.i(1,50); VI ind; if(c%3){ pr.setUniformIndices(n); ind=iota(n); } else { ind=g.subset(4*n+5,n); pr.setIndices(ind); }
    std::set<int> all(ind.begin(),ind.end());
    for(int t=0;t<60;t++)
    {
      if(t==30&&c%4==0){ ind=g.subset(2*n+9,std::max(size,n/2)); pr.setIndices(ind); all=std::set<int>(ind.begin(),ind.end()); if(size>n) size=pr.size; }
      int it=3; VI s=g.subset(20,g.i(0,15)); pr.badSamples=0; pr.getSamples(it,s); R.ev(Reporter::h(c*64+t,s.empty()?0:s[0])); R.cov("samples drawn");
      bool enough=(int)ind.size()>=size;
      if(!enough){ if(!s.empty()) R.fail("draw:toofew","sample of %zu out of %zu data although %d are needed",s.size(),ind.size(),size); if(it<=3) R.fail("draw:stop","the caller is not told to stop"); continue; }
      if(it!=3) R.fail("draw:iterations","iteration counter changed to %d",it);
      if(s.empty()){ if((int)pr.badSamples!=pr.max_sample_checks_) R.fail("draw:giveup","gave up after %llu unsuitable samples",(unsigned long long)pr.badSamples); R.cov("gave up after the allowed number of unsuitable samples"); continue; }
      if((int)pr.badSamples>=pr.max_sample_checks_) R.fail("draw:checks","%llu unsuitable samples before success, at most %d checks allowed",(unsigned long long)pr.badSamples,pr.max_sample_checks_);
      std::set<int> u(s.begin(),s.end());
      if((int)s.size()!=size) R.fail("draw:size","sample of %zu, expected %d",s.size(),size);
      if(u.size()!=s.size()) R.fail("draw:distinct","sample %s repeats a datum",iv(s).c_str());
      for(int i: s) if(!all.count(i)) R.fail("draw:foreign","sample %s contains %d, not one of the data",iv(s).c_str(),i);
      if(!pr.isSampleGood(s)) R.fail("draw:unsuitable","returned a sample the problem declares unsuitable");
      pr.badSamples=0;
      if(*pr.getIndices()!=ind) R.fail("draw:indices","drawing changed the data indices");
    }
  });
  R.each("draw-multi",R.N(800,30000),[&](Rng&g,int c)
  {
    Plan p=base; p.seed=g.next(); int C=c%7==3?g.i(6,40):g.i(1,5); VI N,size; std::vector<VI> ind; bool uni=c%3!=0; for(int k=0;k<C;k++){ N.push_back(c%17==4?g.i(20,2000):g.i(1,30)); size.push_back(g.i(1,std::min(N[k],c%17==4?20:4))); ind.push_back(uni?iota(N[k]):g.subset(4*N[k]+5,N[k])); }
    if(c%13==0) size[g.i(C)]+=40000; if(c%5==1) p.pBadSample=g.u(0,0.9); LogMultiProblem pr(p,size,c%2); if(c%5==1&&g.p(0.5)) pr.max_sample_checks_=g.i(1,50);
    if(uni) pr.setUniformIndices(N); else pr.setIndices(ind); bool enough=true; for(int k=0;k<C;k++) if(size[k]>N[k]) enough=false;
    for(int t=0;t<30;t++)
    {
      if(t==15&&c%4==0){ for(int k=0;k<C;k++){ N[k]=g.i(std::min(N[k],size[k]),N[k]+3); ind[k]=g.subset(2*N[k]+9,N[k]); } pr.setIndices(ind); enough=true; for(int k=0;k<C;k++) if(size[k]>N[k]) enough=false; }
      int it=3; VVI s(g.i(0,C+2),VI(g.i(0,4),1)); pr.badSamples=0; pr.getSamples(it,s); R.ev(Reporter::h(c*64+t,s.empty()?0:s[0][0]),1); R.cov("multi-camera samples drawn");
      if(!enough){ if(!s.empty()) R.fail("multidraw:toofew","a sample although a camera has too few data"); if(it<=3) R.fail("multidraw:stop","the caller is not told to stop"); continue; }
      if(it!=3) R.fail("multidraw:iterations","iteration counter changed to %d",it);
      if(s.empty()){ if((int)pr.badSamples!=pr.max_sample_checks_) R.fail("multidraw:giveup","gave up after %llu unsuitable samples, %d allowed",(unsigned long long)pr.badSamples,pr.max_sample_checks_); R.cov("gave up after the allowed number of unsuitable multi-camera samples"); continue; }
      if((int)pr.badSamples>=pr.max_sample_checks_) R.fail("multidraw:checks","%llu unsuitable samples before success, at most %d checks allowed",(unsigned long long)pr.badSamples,pr.max_sample_checks_);
      if((int)s.size()!=C){ R.fail("multidraw:cameras","sample of %zu cameras, the problem has %d",s.size(),C); continue; }
      for(int k=0;k<C;k++){ std::set<int> u(s[k].begin(),s[k].end()),all(ind[k].begin(),ind[k].end()); if((int)s[k].size()!=size[k]) R.fail("multidraw:size","%zu data of camera %d, expected %d",s[k].size(),k,size[k]); if(u.size()!=s[k].size()) R.fail("multidraw:distinct","camera %d: sample %s repeats a datum",k,iv(s[k]).c_str()); for(int i:s[k]) if(!all.count(i)) R.fail("multidraw:foreign","camera %d: datum %d is not one of its data",k,i); }
      if(!pr.isSampleGood(s)) R.fail("multidraw:unsuitable","returned a sample the problem declares unsuitable");
      if(*pr.getIndices()!=ind) R.fail("multidraw:indices","drawing changed the data indices");
    }
  });
  // every subset equally likely (order of the data must not matter)
  R.each("uniform",R.N(64,600),[&](Rng&g,int c)
  {
    Plan p=base; p.seed=g.next(); int n=g.i(4,9),size=g.i(1,3); LogProblem pr(p,size,true); 
    // seeded by the workload so that the verdict is reproducible
    pr.rng_alg_.seed((unsigned)g.next()); pr.rng_gen_.reset(new std::function<int()>(std::bind(*pr.rng_dist_,pr.rng_alg_))); VI ind=g.subset(50,n); pr.setIndices(ind);
    std::map<VI,double> cnt; std::vector<std::vector<double> > at(size,std::vector<double>(n,0)); int T=8000; std::map<int,int> pos; for(int k=0;k<n;k++) pos[ind[k]]=k; VI prev; double rep=0;
    for(int t=0;t<T;t++){ int it=0; VI s; pr.getSamples(it,s); for(int k=0;k<size;k++) at[k][pos[s[k]]]++; VI q=s; std::sort(q.begin(),q.end()); cnt[q]++; if(q==prev) rep++; prev=q; }
    double combos=1; for(int k=0;k<size;k++) combos=combos*(n-k)/(k+1); double e=T/combos,x2=0; for(auto&x:cnt) x2+=(x.second-e)*(x.second-e)/e; x2+=(combos-cnt.size())*e; double dof=combos-1; R.ev(c,x2); R.cov("subsets distinguished",(uint64_t)combos);
    if(x2>dof+8*sqrt(2*dof)+20) R.fail("uniform:subset","chi2 %.1f over %.0f subsets (n=%d size=%d)",x2,combos,n,size);
    for(int k=0;k<size;k++){ double y=0,f=(double)T/n; for(double v: at[k]) y+=(v-f)*(v-f)/f; if(y>n-1+8*sqrt(2.0*n)+20) R.fail("uniform:position","chi2 %.1f at position %d",y,k); }
    double er=T/combos; if(fabs(rep-er)>8*sqrt(er)+8) R.fail("uniform:independent","%g immediate repetitions, %g expected",rep,er);
  });
  // large sets: no datum is favoured or left out
  R.each("uniform-large",R.N(32,320),[&](Rng&g,int c)
  {
    Plan p=base; p.seed=g.next(); int n=c%4==3?g.i(1000,4000):g.i(40,400),size=g.i(1,6); LogProblem pr(p,size,true); pr.rng_alg_.seed((unsigned)g.next()); pr.rng_gen_.reset(new std::function<int()>(std::bind(*pr.rng_dist_,pr.rng_alg_))); VI ind=g.subset(3*n,n); pr.setIndices(ind);
    std::map<int,int> pos; for(int k=0;k<n;k++) pos[ind[k]]=k; int T=60*n/size+1; std::vector<double> cnt(n,0); std::vector<std::vector<double> > fst(size,std::vector<double>(16,0)); for(int t=0;t<T;t++){ int it=0; VI s; pr.getSamples(it,s); for(int k=0;k<(int)s.size();k++){ cnt[pos[s[k]]]++; fst[k][pos[s[k]]*16/n]++; } }
    double e=(double)T*size/n,x2=0; R.ev(c,n); R.cov("samples of large sets",T); for(int k=0;k<n;k++){ x2+=(cnt[k]-e)*(cnt[k]-e)/e; if(cnt[k]<e-7*sqrt(e)||cnt[k]>e+9*sqrt(e)) R.fail("uniform:datum","datum %d of %d drawn %g times, %g expected (samples of %d)",k,n,cnt[k],e,size); }
    if(x2>n-1+8*sqrt(2.0*n)+20) R.fail("uniform:large","chi2 %.1f over %d data",x2,n);
    for(int k=0;k<size;k++){ double y=0; for(int b=0;b<16;b++){ int lo=(b*n+15)/16,hi=((b+1)*n+15)/16; double f=(double)T*(hi-lo)/n; y+=(fst[k][b]-f)*(fst[k][b]-f)/f; } if(y>15+8*sqrt(30.0)+20) R.fail("uniform:region","position %d of the samples prefers a region of the data: chi2 %.1f",k,y); }
    // the multi-camera problem draws by the same rules
    VI N,sz; for(int k=0;k<3;k++){ N.push_back(g.i(20,150)); sz.push_back(g.i(1,3)); } LogMultiProblem mp(p,sz,true); mp.rng_alg_.seed((unsigned)g.next()); mp.rng_gen_.reset(new std::function<int()>(std::bind(*mp.rng_dist_,mp.rng_alg_))); mp.setUniformIndices(N); std::vector<std::vector<double> > mc(3); for(int k=0;k<3;k++) mc[k].assign(N[k],0); int M=9000; for(int t=0;t<M;t++){ int it=0; VVI s; mp.getSamples(it,s); for(int k=0;k<3;k++) for(int i:s[k]) mc[k][i]++; }
    for(int k=0;k<3;k++) for(int i=0;i<N[k];i++){ double f=(double)M*sz[k]/N[k]; if(mc[k][i]<f-7*sqrt(f)||mc[k][i]>f+9*sqrt(f)) R.fail("uniform:multi-datum","datum %d of %d of camera %d drawn %g times, %g expected",i,N[k],k,mc[k][i],f); }
  });
  // far more data than a 15 or 16 bit random number reaches
  R.each("uniform-huge",R.N(1,20),[&](Rng&g,int c)
  {
    Plan p=base; int n=g.i(70000,200000),size=g.i(1,4),T=20000,B=32; LogProblem pr(p,size,true); pr.rng_alg_.seed((unsigned)g.next()); pr.rng_gen_.reset(new std::function<int()>(std::bind(*pr.rng_dist_,pr.rng_alg_))); pr.setUniformIndices(n); std::vector<double> b(B,0); double hit=0;
    for(int t=0;t<T;t++){ int it=0; VI s; pr.getSamples(it,s); for(int i:s){ if(i<0||i>=n){ R.fail("uniform:huge-range","index %d of %d",i,n); return; } b[(long long)i*B/n]++; hit++; } } R.ev(c,n); R.cov("samples of huge sets",T);
    double x2=0; for(double v:b) x2+=(v-hit/B)*(v-hit/B)/(hit/B); if(x2>B-1+8*sqrt(2.0*B)+20) R.fail("uniform:huge","chi2 %.1f over %d regions of %d data",x2,B,n);
    LogMultiProblem mp(p,VI(2,size),true); mp.rng_alg_.seed((unsigned)g.next()); mp.rng_gen_.reset(new std::function<int()>(std::bind(*mp.rng_dist_,mp.rng_alg_))); VI N(2,n); N[0]=n/2; mp.setUniformIndices(N); for(int k=0;k<2;k++) b.assign(B,0); std::vector<double> b2[2]; b2[0]=b2[1]=b;
    for(int t=0;t<T/2;t++){ int it=0; VVI s; mp.getSamples(it,s); for(int k=0;k<2;k++) for(int i:s[k]) b2[k][std::min<long long>(B-1,std::max<long long>(0,(long long)i*B/N[k]))]++; } for(int k=0;k<2;k++){ double e=(double)(T/2)*size/B; x2=0; for(double v:b2[k]) x2+=(v-e)*(v-e)/e; if(x2>B-1+8*sqrt(2.0*B)+20) R.fail("uniform:multi-huge","camera %d: chi2 %.1f over %d regions of %d data",k,x2,B,N[k]); }
  });
  // without a random seed the whole sequence is reproducible, instance by instance
  R.each("reproducible",R.N(200,4000),[&](Rng&g,int c)
  {
    Plan p=base; p.seed=g.next(); int n=g.i(5,60),size=g.i(1,5); LogProblem a(p,size,false),b(p,size,false); a.setUniformIndices(n); b.setUniformIndices(n);
    LogProblem noise(p,size,true); noise.setUniformIndices(n);
    VVI sa,sb; for(int t=0;t<30;t++){ int it=0; VI s; a.getSamples(it,s); sa.push_back(s); if(t%3==0) noise.getSamples(it,s); } for(int t=0;t<30;t++){ int it=0; VI s; b.getSamples(it,s); sb.push_back(s); }
    R.ev(c,n); if(sa!=sb) R.fail("reproducible","two unseeded problems draw different samples (n=%d size=%d)",n,size);
    VI sz(3,size); LogMultiProblem ma(p,sz,false),mb(p,sz,false); VI N(3,n); ma.setUniformIndices(N); mb.setUniformIndices(N); std::vector<std::unique_ptr<LogProblem> > many; std::vector<std::unique_ptr<char[]> > pad; for(int k=0;k<6&&c%10==0;k++){ pad.emplace_back(new char[g.i(1,5000)]); many.emplace_back(new LogProblem(p,size,false)); many.back()->setUniformIndices(n); } for(auto&o:many) for(int t=0;t<5;t++){ int it=0; VI s; o->getSamples(it,s); if(s!=sa[t]) R.fail("reproducible:place","an unseeded problem elsewhere in memory draws different samples"); }
    for(int t=0;t<20;t++){ int it=0; VVI x,y; ma.getSamples(it,x); mb.getSamples(it,y); if(x!=y) R.fail("reproducible:multi","two unseeded multi problems draw different samples"); }
    // the generator must not be stuck
    std::set<VI> u(sa.begin(),sa.end()); if(n>20&&size>1&&u.size()<15) R.fail("reproducible:stuck","only %zu distinct samples of 30",u.size());
  });
  // every problem class, through both of its constructors
  for(auto&nm:sacNames()) R.each("classes/"+nm,R.N(12,200),[&](Rng&g,int c)
  {
    bool six=nm.find("sixpt")!=std::string::npos||nm.find("seventeen")!=std::string::npos,multi=nm.find("multi")!=std::string::npos; SacOpt o; o.cams=six?5:3; o.n=multi?o.cams*g.i(20,30):g.i(30,90); VI sub=g.subset(o.n,g.i(o.n*9/10,o.n)); Rng g0=g; SacOpt oa=o,ob=o,oc=o; oa.ctor=2; ob.ctor=1; oc.idx=sub;
    Rng ga=g0,gb=g0,gc=g0,gd=g0; auto A=makeSac(ga,nm,oa),B=makeSac(gb,nm,ob),C=makeSac(gc,nm,oc),E=makeSac(gd,nm,oc); ISac*s[4]={A->s.get(),B->s.get(),C->s.get(),E->s.get()}; VI want[4]; for(int k=0;k<4;k++) want[k]=s[k]->multi()?s[k]->group(k<2?iota(o.n):sub):k<2?iota(o.n):sub;
    for(int k=0;k<4;k++) if(s[k]->indices()!=want[k]) R.fail("classes:indices","%s: the problem works on %s instead of %s",nm.c_str(),iv(s[k]->indices()).c_str(),iv(want[k]).c_str());
    bool fixed=nm.find("abs-multi")!=0; for(int t=0;t<12;t++)
    {
      srand(7+t); VI sz=s[0]->sizes(); VI d[4]; for(int k=0;k<4;k++){ srand(7+t); d[k]=s[k]->draw(); } R.ev(Reporter::hs(nm)+c*64+t,d[0].empty()?0:d[0][0]); R.cov("samples of real problems");
      for(int k=0;k<4;k++){ VI per(sz.size(),0); std::set<int> u(d[k].begin(),d[k].end()),all(want[k].begin(),want[k].end()); for(int i:d[k]){ if(!all.count(i)) R.fail("classes:foreign","%s: sample %s contains %d",nm.c_str(),iv(d[k]).c_str(),i); else per[s[k]->at[i].first]++; } if(per!=sz||u.size()!=d[k].size()) R.fail("classes:size","%s: sample %s, sizes %s expected",nm.c_str(),iv(d[k]).c_str(),iv(sz).c_str()); }
      if(fixed&&d[0]!=d[1]) R.fail("classes:reproducible","%s: without a random seed and with the same data, draw %d is %s and %s (constructors with and without indices)",nm.c_str(),t,iv(d[0]).c_str(),iv(d[1]).c_str());
      if(fixed&&d[2]!=d[3]) R.fail("classes:reproducible-indices","%s: two problems without a random seed on the same indices draw %s and %s",nm.c_str(),iv(d[2]).c_str(),iv(d[3]).c_str());
    }
  });
}
