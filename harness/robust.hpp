// P14 Ransac / P15 Lmeds / P16 MultiRansac: offline checking of the logged hypotheses
#include "consensus.hpp"
using namespace vf; namespace sac=opengv::sac;

static bool sameModel(const Model&a,const Model&b){ return a.id==b.id&&a.serial==b.serial&&a.payload==b.payload; }
// number of trials demanded by the adaptive rule for the best consensus so far
static double trials(double best,double total,double size,double p)
{ double w=best/total, q=1-pow(w,size), e=std::numeric_limits<double>::epsilon(); q=std::min(1-e,std::max(e,q)); return log(1-p)/log(q); }

template<class Rob,class Prob,class CountF,class TotF,class SizF>
static void checkRansac(Reporter&R,const char*nm,Rob&rs,Prob&pr,bool ret,size_t from,CountF count,TotF total,SizF ssize,bool enough)
{
  // replay of the log
  int best=-INT_MAX,bestAt=-1,it=0,skip=0; double k=1; bool stopped=false; size_t h=from; int maxIt=rs.max_iterations_;
  for(;h<pr.log.size();h++)
  {
    if(stopped){ R.fail(str("%s:late",nm),"%zu hypotheses after the stopping rule was satisfied (it=%d k=%.6g max=%d)",pr.log.size()-h,it,k,maxIt); return; }
    const Hyp&x=pr.log[h]; R.cov(str("%s hypotheses",nm));
    if(!x.ok){ skip++; R.cov(str("%s hypotheses rejected by the problem",nm)); if(skip>=10*maxIt) stopped=true; continue; }
    int n=count(x.m); it++; if(n>best){ best=n; bestAt=(int)h; k=trials(n,total(),ssize(x),rs.probability_); }
    if(it>=maxIt||it>=k*(1+1e-9)) stopped=true;     // certainly done
    else if(it>=k*(1-1e-9)&&h+1==pr.log.size()) stopped=true;
  }
  if(it>maxIt) R.fail(str("%s:limit",nm),"%d hypotheses evaluated, maximum %d",it,maxIt);
  if(skip>10*maxIt) R.fail(str("%s:skiplimit",nm),"%d useless samples, maximum %d",skip,10*maxIt);
  bool wantOk=bestAt>=0;
  if(ret!=wantOk) R.fail(str("%s:return",nm),"returned %d although %s",ret,wantOk?"a hypothesis was accepted":"no hypothesis exists");
  R.cov(str("%s runs %s",nm,ret?"with a model":"without a model"));
  if(!wantOk)
  { if(!rs.model_.empty()||!rs.inliers_.empty()) R.fail(str("%s:stale",nm),"failed run reports a sample of %zu and %zu inlier entries",rs.model_.size(),rs.inliers_.size()); }
  if(!stopped&&enough&&maxIt>0&&pr.plan.pBadSample==0&&!(pr.log.size()==from&&maxIt<=0))
    R.fail(str("%s:early",nm),"stopped after %d hypotheses (%d rejected) although %.6g trials are required (max %d)",it,skip,k,maxIt);
  if(!wantOk) return;
  if(enough&&rs.iterations_!=it) R.fail(str("%s:iterations",nm),"reports %d iterations, %d hypotheses were evaluated",rs.iterations_,it);
  const Hyp&b=pr.log[bestAt];
  if(!sameModel(rs.model_coefficients_,b.m)) R.fail(str("%s:best",nm),"returned hypothesis %d with %d inliers, hypothesis %d has %d",rs.model_coefficients_.serial,count(rs.model_coefficients_),b.m.serial,best);
}

static void single(Reporter&R)
{
  R.each("ransac",R.N(3000,150000),[&](Rng&g,int c)
  {
    Plan p=mkPlan(g,c); int n=g.i(1,c%7==0?400:60), size=g.i(1,std::min(6,n)); if(c%89==44) n=g.i(1000,6000); if(c%41==0) size=n+1; if(c%37==0) size=n; if(c%101==50){ n=g.i(20,60); size=g.i(7,17); }
    std::shared_ptr<LogProblem> pr(new LogProblem(p,size,c%2)); VI ind;
    if(c%3) { pr->setUniformIndices(n); ind=iota(n); } else { ind=g.subset(3*n+5,n); pr->setIndices(ind); }
    sac::Ransac<LogProblem> rs(g.i(1,c%5?60:400),p.threshold,c%8==0?g.u(0.5,0.6):(c%8==1?0.999999:0.99)); if(c%53==0) rs.max_iterations_=1; extremes(g,c,rs,pr->plan);
    rs.sac_model_=pr;
    int runs=c%4==0?3:1;
    for(int run=0;run<runs;run++)
    {
      // reuse: a second and third fit with other settings must not remember the first
      if(run){ if(g.p(0.5)) pr->plan.pNoModel=g.p(0.5)?1:0; if(g.p(0.4)){ pr->plan.threshold=rs.threshold_=p.threshold*g.u(0.2,2); } if(g.p(0.4)){ n=std::max(size,g.i(1,80)); pr->setUniformIndices(n); ind=iota(n); } if(g.p(0.2)) rs.max_iterations_=g.i(1,50); if(g.p(0.2)){ rs.probability_=g.u(0.1,0.99999); } if(g.p(0.3)){ Plan o=pr->plan; size=g.i(1,std::min(6,n)); pr.reset(new LogProblem(o,size,g.p(0.5))); pr->setIndices(ind); rs.sac_model_=pr; R.cov("reruns with another problem"); } }
      size_t from=pr->log.size(); Plan&q=pr->plan; double thr=rs.threshold_;
      int verb=c%10==3?1:c%10==6?2:c%30==9?3:0; R.cov(str("ransac runs with verbosity %d",verb)); bool ret; { Quiet quiet(verb>0); ret=rs.computeModel(verb); } R.ev(Reporter::hs("ransac")+run,p.threshold+n*7.0+pr->log.size());
      auto cnt=[&](const Model&m){ int k=0; for(int i: ind) if(planDist(q,m.id,i)<thr) k++; return k; };
      checkRansac(R,"ransac",rs,*pr,ret,from,cnt,[&]{return (double)ind.size();},[&](const Hyp&){return (double)size;},(int)ind.size()>=size);
      if(ret)
      {
        VI want; for(int i: ind) if(planDist(q,rs.model_coefficients_.id,i)<thr) want.push_back(i);
        if(want!=rs.inliers_) R.fail("ransac:inliers","inliers %s, data closer than the threshold %s",iv(rs.inliers_).c_str(),iv(want).c_str());
        if(sampleHash(rs.model_,q.seed)!=rs.model_coefficients_.id) R.fail("ransac:sample","the reported sample %s did not generate the reported model",iv(rs.model_).c_str());
        if((int)rs.model_.size()!=size) R.fail("ransac:samplesize","sample of %zu, expected %d",rs.model_.size(),size);
        R.mx("largest consensus",(double)rs.inliers_.size()/ind.size());
      }
      if(*pr->getIndices()!=ind) R.fail("ransac:indices","the problem's data indices changed");
      if(c<2) R.sample("ransac n=%d sample=%d max=%d: %zu hypotheses, return %d, %zu inliers",n,size,rs.max_iterations_,pr->log.size()-from,ret,rs.inliers_.size());
    }
  });
}
static void multi(Reporter&R)
{
  R.each("multiransac",R.N(3000,150000),[&](Rng&g,int c)
  {
    Plan p=mkPlan(g,c); int cams=c%59==30?g.i(6,20):g.i(1,5); VI N,sizes; VVI ind; int tot=0;
    for(int k=0;k<cams;k++){ N.push_back(c%6==2&&(k||cams>1)&&g.p(0.3)?0:g.i(1,c%6==2?6:c%97==41?1500:40)); sizes.push_back(std::min(N[k],g.i(0,4))); if(c%41==0&&k==cams-1) sizes[k]=N[k]+1; tot+=sizes[k]; } if(tot==0){ if(N[0]==0) N[0]=3; sizes[0]=1; } for(int k=0;k<cams;k++) if(N[k]==0) R.cov("cameras without data");
    bool enough=true; for(int k=0;k<cams;k++) if(sizes[k]>N[k]) enough=false;
    std::shared_ptr<LogMultiProblem> pr(new LogMultiProblem(p,sizes,c%2));
    for(int k=0;k<cams;k++) ind.push_back(c%3?iota(N[k]):g.subset(3*N[k]+5,N[k]));
    if(c%3) pr->setUniformIndices(N); else pr->setIndices(ind);
    sac::MultiRansac<LogMultiProblem> rs(g.i(1,c%5?60:400),p.threshold,c%8==0?g.u(0.5,0.6):(c%8==1?0.999999:0.99)); rs.sac_model_=pr; extremes(g,c,rs,pr->plan);
    int runs=c%4==0?3:1;
    for(int run=0;run<runs;run++)
    {
      if(run){ if(g.p(0.5)) pr->plan.pNoModel=g.p(0.5)?1:0; if(g.p(0.4)) pr->plan.threshold=rs.threshold_=p.threshold*g.u(0.2,2); if(g.p(0.2)) rs.max_iterations_=g.i(1,50); if(g.p(0.2)) rs.probability_=g.u(0.1,0.99999); if(g.p(0.3)){ Plan o=pr->plan; pr.reset(new LogMultiProblem(o,sizes,g.p(0.5))); pr->setIndices(ind); rs.sac_model_=pr; R.cov("reruns with another problem"); } }
      size_t from=pr->log.size(); Plan&q=pr->plan; double thr=rs.threshold_; int verb=c%10==3?1:c%10==6?2:0; bool ret; { Quiet quiet(verb>0); ret=rs.computeModel(verb); } R.ev(Reporter::hs("multi")+run,p.threshold+cams*7.0+pr->log.size());
      auto cnt=[&](const Model&m){ int k=0; for(int z=0;z<cams;z++) for(int i: ind[z]) if(planDist(q,m.id,i+1000*z)<thr) k++; return k; };
      auto total=[&]{ double t=0; for(auto&v:ind) t+=v.size(); return t; };
      checkRansac(R,"multiransac",rs,*pr,ret,from,cnt,total,[&](const Hyp&x){ double t=0; for(auto&v:x.msample) t+=v.size(); return t; },enough);
      if(ret)
      {
        VVI want(cams); for(int z=0;z<cams;z++) for(int i: ind[z]) if(planDist(q,rs.model_coefficients_.id,i+1000*z)<thr) want[z].push_back(i);
        if(want!=rs.inliers_) R.fail("multiransac:inliers","inliers are not the data closer than the threshold");
        if(LogMultiProblem::id(rs.model_,q.seed)!=rs.model_coefficients_.id) R.fail("multiransac:sample","the reported sample did not generate the reported model");
        for(int z=0;z<cams;z++) if((int)rs.model_[z].size()!=sizes[z]) R.fail("multiransac:samplesize","camera %d: sample of %zu, expected %d",z,rs.model_[z].size(),sizes[z]);
      }
      if(*pr->getIndices()!=ind) R.fail("multiransac:indices","the problem's data indices changed");
      // every drawn sample: right size per camera, distinct, from that camera's data
      for(size_t h=from;h<pr->log.size();h++) for(int z=0;z<cams;z++){ const VI&s=pr->log[h].msample[z]; std::set<int> u(s.begin(),s.end()); if((int)s.size()!=sizes[z]||u.size()!=s.size()) R.fail("multiransac:draw","camera %d sample %s",z,iv(s).c_str()); for(int i: s) if(std::find(ind[z].begin(),ind[z].end(),i)==ind[z].end()) R.fail("multiransac:foreign","camera %d: index %d is not among its data",z,i); }
    }
  });
  // all correspondences of every camera take part equally often
  R.each("multi-uniform",R.N(40,400),[&](Rng&g,int c)
  {
    Plan p=mkPlan(g,0); p.pBadSample=p.pNoModel=0; int cams=g.i(2,4); VI N,sizes; for(int k=0;k<cams;k++){ N.push_back(g.i(3,9)); sizes.push_back(g.i(1,2)); }
    LogMultiProblem pr(p,sizes,true); pr.rng_alg_.seed((unsigned)g.next()); pr.rng_gen_.reset(new std::function<int()>(std::bind(*pr.rng_dist_,pr.rng_alg_))); pr.setUniformIndices(N);
    int T=6000; std::vector<std::vector<double> > cnt(cams); for(int k=0;k<cams;k++) cnt[k].assign(N[k],0);
    for(int t=0;t<T;t++){ int it=0; VVI s; pr.getSamples(it,s); for(int k=0;k<cams;k++) for(int i: s[k]) cnt[k][i]++; }
    for(int k=0;k<cams;k++){ double e=(double)T*sizes[k]/N[k],x2=0; for(double v: cnt[k]) x2+=(v-e)*(v-e)/e; R.ev(c*10+k,x2); double dof=N[k]-1; if(x2>dof+8*sqrt(2*dof)+20) R.fail("multiransac:uniform","camera %d: chi2 %.1f for %d data (sample %d)",k,x2,N[k],sizes[k]); }
  });
}
static void lmeds(Reporter&R)
{
  R.each("lmeds",R.N(4000,200000),[&](Rng&g,int c)
  {
    Plan p=mkPlan(g,c); p.negative=c%4==2; p.empties=c%13==0; p.pNan=0; int n=g.i(1,c%89==44?5000:c%7==0?200:40), size=g.i(1,std::min(5,n)); if(c%41==0) size=n+1;
    if(c%9==0){ n=g.i(1,5); size=1; }
    std::shared_ptr<LogProblem> pr(new LogProblem(p,size,c%2)); VI ind; if(c%3) { pr->setUniformIndices(n); ind=iota(n); } else { ind=g.subset(3*n+5,n); pr->setIndices(ind); }
    sac::Lmeds<LogProblem> rs(c%83==40?g.i(200,1500):g.i(1,50),p.threshold,0.99); rs.sac_model_=pr; int runs=c%4==0?3:1;
    for(int run=0;run<runs;run++)
    {
      if(run){ if(g.p(0.5)) pr->plan.pNoModel=g.p(0.5)?1:0; if(g.p(0.4)) pr->plan.threshold=rs.threshold_=p.threshold*g.u(0.2,2); if(g.p(0.2)) rs.max_iterations_=g.i(1,50); }
      size_t from=pr->log.size(); Plan&q=pr->plan; double thr=rs.threshold_; int verb=c%10==3?1:c%10==6?2:0; bool ret; { Quiet quiet(verb>0); ret=rs.computeModel(verb); } R.ev(Reporter::hs("lmeds")+run,p.threshold+n*7.0+pr->log.size());
      bool enough=(int)ind.size()>=size; int it=0,skip=0; double best=std::numeric_limits<double>::max(); int bestAt=-1;
      auto med=[&](const Model&m,double&o){ if(q.empties&&unitHash(m.id,21)<0.2) return false; VD d; for(int i: ind){ double x=planDist(q,m.id,i); if(x<0) x=0; d.push_back(x*x); } std::sort(d.begin(),d.end()); size_t k=d.size(); o=k%2?d[k/2]:(d[k/2-1]+d[k/2])/2; return true; };
      for(size_t h=from;h<pr->log.size();h++){ R.cov("lmeds hypotheses"); double o=0; if(!pr->log[h].ok||!med(pr->log[h].m,o)){ skip++; continue; } it++; if(o<best){ best=o; bestAt=(int)h; } }
      if(it>rs.max_iterations_) R.fail("lmeds:limit","%d hypotheses, maximum %d",it,rs.max_iterations_);
      if(skip>10*rs.max_iterations_) R.fail("lmeds:skiplimit","%d useless samples",skip);
      if(enough&&q.pBadSample==0&&it<rs.max_iterations_&&skip<10*rs.max_iterations_) R.fail("lmeds:early","stopped after %d of %d hypotheses",it,rs.max_iterations_);
      if(ret!=(bestAt>=0)) R.fail("lmeds:return","returned %d, best hypothesis %d",ret,bestAt);
      R.cov(ret?"lmeds runs with a model":"lmeds runs without a model");
      if(!ret){ if(!rs.inliers_.empty()||(bestAt<0&&!rs.model_.empty())) R.fail("lmeds:stale","failed run reports %zu inliers, sample of %zu",rs.inliers_.size(),rs.model_.size()); continue; }
      if(bestAt<0) continue;
      double got=0; med(rs.model_coefficients_,got);
      if(!(got<=best*(1+1e-12))||rs.model_coefficients_.payload!=pr->log[rs.model_coefficients_.serial].m.payload) R.fail("lmeds:best","median of the squared distances %.12g, hypothesis %d has %.12g",got,bestAt,best);
      if(ind.size()%2&&got==best&&rs.model_coefficients_.serial!=bestAt) R.fail("lmeds:tie","hypothesis %d returned, the earlier hypothesis %d is as good",rs.model_coefficients_.serial,bestAt);
      if(enough&&q.pBadSample==0&&rs.iterations_!=it) R.fail("lmeds:iterations","reports %d iterations, %d hypotheses were evaluated",rs.iterations_,it);
      VI want; for(int i: ind) if(planDist(q,rs.model_coefficients_.id,i)<=thr) want.push_back(i);
      if(want!=rs.inliers_) R.fail("lmeds:inliers","inliers %s, data within the threshold %s",iv(rs.inliers_).c_str(),iv(want).c_str());
      if(sampleHash(rs.model_,q.seed)!=rs.model_coefficients_.id||(int)rs.model_.size()!=size) R.fail("lmeds:sample","the reported sample %s did not generate the reported model",iv(rs.model_).c_str());
      if(c<2) R.sample("lmeds n=%d sample=%d max=%d: %zu hypotheses, best median %.4g, %zu inliers",n,size,rs.max_iterations_,pr->log.size()-from,best,rs.inliers_.size());
    }
  });
  // no threshold set: documented failure
  R.each("lmeds-nothreshold",8,[&](Rng&g,int c){ Plan p=mkPlan(g,0); std::shared_ptr<LogProblem> pr(new LogProblem(p,2)); pr->setUniformIndices(10); sac::Lmeds<LogProblem> rs(10,std::numeric_limits<double>::max()); rs.sac_model_=pr; R.ev(5+c); if(rs.computeModel()) R.fail("lmeds:nothreshold","succeeds without a threshold"); });
}
void monitor(Reporter&R)
{
#if defined(VF_RANSAC)
  single(R);
#elif defined(VF_LMEDS)
  lmeds(R);
#else
  multi(R);
#endif
}
