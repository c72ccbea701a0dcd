// P25 / P27  every call on hostile data: memory safety (under the sanitizers) and termination (bounded CPU time per call)
#include "worlds.hpp"
#include <time.h>
using namespace vf;
static double cpu(){ timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static void check(Reporter&R,Rng&g,const std::string&w,const WOpt&o)
{
  auto W=makeWorld(g,w,o); for(auto&x:W->calls){ if(getenv("VF_TRACE")){ fprintf(stderr,"%s\n",x.name.c_str()); } double t=cpu(); Raw r=call(x); t=cpu()-t; R.ev(Reporter::h(Reporter::hs(x.name+o.hostile),(uint64_t)R.curC)); bool f=true; for(double v:r) if(!std::isfinite(v)) f=false; R.cov(f?"calls with finite outputs":"calls with non-finite outputs"); R.cov("calls "+w); 
#ifdef VF_TERMINATE
    double lim=x.name.find("sixpt")!=std::string::npos?20:4; if(t>lim) R.fail("slow:"+x.name.substr(0,x.name.find('/')),"%s on data '%s' took %.1f s of CPU time, limit %.0f s",x.name.c_str(),o.hostile.c_str(),t,lim);
#endif
    R.mx("cpu seconds "+x.name.substr(0,x.name.find('/')),t); }
}
#ifdef VF_TERMINATE
#include "consensus.hpp"
// the consensus loops under extreme settings and useless problems: bounded by their own counters
template<class Rob,class Prob> static void bounded(Reporter&R,Rng&g,const char*nm,Rob&rs,std::shared_ptr<Prob> pr)
{
  static const double P[]={0.99,0,1,-1,2,NAN,1-1e-17,1e-300,INFINITY},T[]={0,-1,1e-300,1e300,INFINITY,NAN,0.1}; static const int M[]={0,1,2,3,50,700};
  rs.probability_=P[g.i(9)]; rs.threshold_=T[g.i(7)]; rs.max_iterations_=M[g.i(6)]; rs.sac_model_=pr; pr->max_sample_checks_=g.i(1,20); size_t l0=pr->log.size(); uint64_t b0=pr->badSamples,q0=pr->queries; double t=cpu(); rs.computeModel(0); t=cpu()-t;
  long hyp=(long)(pr->log.size()-l0),lim=11l*std::max(1,rs.max_iterations_)+1; R.ev(Reporter::hs(nm),(uint64_t)R.curC); R.cov(str("%s runs under extreme settings",nm)); R.mx("hypotheses per max_iterations",hyp/(double)std::max(1,rs.max_iterations_));
  if(hyp>lim) R.fail(str("%s:hypotheses",nm),"%ld hypotheses with max_iterations %d",hyp,rs.max_iterations_);
  if((long)(pr->badSamples-b0)>lim*pr->max_sample_checks_) R.fail(str("%s:redraws",nm),"%ld rejected samples with max_iterations %d, %d checks",(long)(pr->badSamples-b0),rs.max_iterations_,pr->max_sample_checks_);
  if((long)(pr->queries-q0)>2*lim) R.fail(str("%s:queries",nm),"%ld scorings with max_iterations %d",(long)(pr->queries-q0),rs.max_iterations_);
  if(t>4) R.fail(str("%s:slow",nm),"%.1f s of CPU time",t);
}
static void extremes(Reporter&R)
{
  R.each("consensus",R.N(4000,100000),[&](Rng&g,int c)
  {
    Plan p=mkPlan(g,c); static const double Z[]={0,0,0.5,0.99,1}; p.pBadSample=Z[g.i(5)]; p.pNoModel=Z[g.i(5)]; if(g.p(0.2)) p.pNan=g.p(0.5)?1:0.3; if(c%4==0) p.empties=true; int n=g.i(1,40),size=g.p(0.1)?n+1:g.i(1,std::min(5,n));
    if(c%3<2){ std::shared_ptr<LogProblem> pr(new LogProblem(p,size,c%2)); if(g.p(0.1)) pr->setIndices(VI()); else pr->setUniformIndices(n); for(int k=0;k<2;k++) if(c%3){ opengv::sac::Lmeds<LogProblem> rs; bounded(R,g,"lmeds",rs,pr); } else { opengv::sac::Ransac<LogProblem> rs; bounded(R,g,"ransac",rs,pr); } }
    else { int cams=g.i(1,4); VI N,S; for(int k=0;k<cams;k++){ N.push_back(g.i(g.p(0.1)?0:1,20)); S.push_back(g.p(0.1)?N[k]+1:g.i(std::min(3,N[k])+1)); } std::shared_ptr<LogMultiProblem> pr(new LogMultiProblem(p,S,c%2)); pr->setUniformIndices(N); for(int k=0;k<2;k++){ opengv::sac::MultiRansac<LogMultiProblem> rs; bounded(R,g,"multiransac",rs,pr); } }
  });
}
#endif
void monitor(Reporter&R)
{
#ifdef VF_TERMINATE
  extremes(R);
#endif
  for(auto&w:worldNames()){ bool six=w.find("sixpt")!=std::string::npos; int n=w=="abs"||w=="rel"?40:w=="math"?10:six?3:8;
    for(auto&h:hostiles()) R.each(w+"/"+h,R.N(n,n*40),[&](Rng&g,int c){ WOpt o; o.hostile=h; o.minimal=c%3==0; o.big=c%7==4; o.slow=c%8==0; static const char*fl[]={"std","std","near","tiny","rotaxis"}; o.fl=fl[c%5]; check(R,g,w,o); }); }
}
