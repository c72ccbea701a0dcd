// A synthetic sample-consensus problem that logs every call the robust
// estimators make.  The offline checkers replay the log against the contract.
#ifndef VERIF_CONSENSUS_HPP_
#define VERIF_CONSENSUS_HPP_
#include "common.hpp"
#include <limits.h>
#include <fcntl.h>
#include <unistd.h>
#include <opengv/sac/SampleConsensusProblem.hpp>
#include <opengv/sac/MultiSampleConsensusProblem.hpp>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac/MultiRansac.hpp>
namespace vf
{
typedef std::vector<int> VI; typedef std::vector<VI> VVI; typedef std::vector<double> VD; typedef std::vector<VD> VVD;
struct Model { uint64_t id; int serial; std::vector<double> payload; Model():id(0),serial(-1){} };
struct Plan   // what the problem does, chosen by the workload
{
  uint64_t seed; double pBadSample,pNoModel,inlierBase,inlierVar,exact,threshold; int good; bool negative, coarse, empties; double pNan,pInf;
};
inline double unitHash(uint64_t a,uint64_t b,uint64_t c=0){ uint64_t x=Reporter::h(Reporter::h(a*0x9E3779B97F4A7C15ull+1,b+0x51ull),c+77); x=Rng::mix(x); return (x>>11)*(1.0/9007199254740992.0); }
inline uint64_t sampleHash(const VI&s,uint64_t seed){ VI t=s; std::sort(t.begin(),t.end()); uint64_t x=seed; for(int k: t) x=Reporter::h(x,(uint64_t)(k+1)); return x; }
// distance of datum i to the model: inlier with a model dependent share
inline double planDist(const Plan&p,uint64_t id,int i)
{
  double share=p.inlierBase+p.inlierVar*unitHash(id,1234567); double u=unitHash(id,i+11,p.seed);
  if(p.pNan>0&&unitHash(id,i,99)<p.pNan) return NAN;
  if(p.pInf>0&&unitHash(id,i,98)<p.pInf) return INFINITY;
  if(p.exact>0&&unitHash(id,i,5)<p.exact) return p.threshold;              // exactly on the threshold
  double v=unitHash(id,i,6); double d=u<share?p.threshold*0.999*v:p.threshold*(1.001+3*v);
  if(p.coarse) d=p.threshold*floor(d/p.threshold*4)/4;
  if(p.negative&&unitHash(id,i,8)<0.1) d=-d; return d;
}
struct Hyp { VI sample; VVI msample; bool ok; Model m; int counted; };

class LogProblem : public opengv::sac::SampleConsensusProblem<Model>
{
public:
  Plan plan; int size; mutable std::vector<Hyp> log; mutable uint64_t badSamples,queries;
  LogProblem(const Plan&p,int s,bool rs=true) : opengv::sac::SampleConsensusProblem<Model>(rs),plan(p),size(s),badSamples(0),queries(0){}
  bool isSampleGood(const VI&s) const { bool g=unitHash(sampleHash(s,plan.seed),3)>=plan.pBadSample; if(!g) badSamples++; return g; }
  int getSampleSize() const { return size; }
  bool computeModelCoefficients(const VI&s,Model&m) const
  { Hyp h; h.sample=s; uint64_t id=sampleHash(s,plan.seed); h.ok=unitHash(id,4)>=plan.pNoModel; 
    m.id=id; m.serial=(int)log.size(); m.payload.assign(3+id%5,(double)(id%1000)); h.m=m; h.counted=-1; log.push_back(h); if(!h.ok) m.id^=0xdeadbeef; return h.ok; }
  void optimizeModelCoefficients(const VI&,const Model&a,Model&b){ b=a; }
  void getSelectedDistancesToModel(const Model&m,const VI&ind,VD&sc) const { queries++; if(plan.empties&&unitHash(m.id,21)<0.2){ return; } for(int i: ind) sc.push_back(planDist(plan,m.id,i)); }
};
class LogMultiProblem : public opengv::sac::MultiSampleConsensusProblem<Model>
{
public:
  Plan plan; VI sizes; mutable std::vector<Hyp> log; mutable uint64_t badSamples,queries;
  LogMultiProblem(const Plan&p,const VI&s,bool rs=true) : opengv::sac::MultiSampleConsensusProblem<Model>(rs),plan(p),sizes(s),badSamples(0),queries(0){}
  static uint64_t id(const VVI&s,uint64_t seed){ uint64_t x=seed; for(auto&v:s) x=Reporter::h(x,sampleHash(v,seed+3)); return x; }
  bool isSampleGood(const VVI&s) const { bool g=unitHash(id(s,plan.seed),3)>=plan.pBadSample; if(!g) badSamples++; return g; }
  VI getSampleSizes() const { return sizes; }
  bool computeModelCoefficients(const VVI&s,Model&m) const
  { Hyp h; h.msample=s; uint64_t i=id(s,plan.seed); h.ok=unitHash(i,4)>=plan.pNoModel; m.id=i; m.serial=(int)log.size(); m.payload.assign(3+i%5,(double)(i%1000)); h.m=m; log.push_back(h); if(!h.ok) m.id^=0xdeadbeef; return h.ok; }
  void optimizeModelCoefficients(const VVI&,const Model&a,Model&b){ b=a; }
  void getSelectedDistancesToModel(const Model&m,const VVI&ind,VVD&sc) const { queries++; sc.resize(ind.size()); for(size_t c=0;c<ind.size();c++) for(int i: ind[c]) sc[c].push_back(planDist(plan,m.id,(int)(i+1000*c))); }
};
inline Plan mkPlan(Rng&g,int c)
{
  Plan p; p.seed=g.next(); p.pBadSample=c%4==1?g.u(0,0.7):0; p.pNoModel=c%3==1?g.u(0,0.95):0; p.inlierBase=g.u(0,0.9); p.inlierVar=g.u(0,1-p.inlierBase); p.exact=c%5==2?g.u(0,0.5):0; p.threshold=pow(10,g.u(-6,2)); p.negative=false; p.coarse=c%6==3; p.empties=false; p.pNan=c%43==17?g.u(0,0.6):0; p.pInf=c%47==21?g.u(0,0.6):0; p.good=0;
  if(c%17==5){ p.pNoModel=1; } if(c%19==7) p.pBadSample=1; if(c%23==3){ p.inlierBase=0; p.inlierVar=0; } if(c%29==11){ p.inlierBase=1; p.inlierVar=0; p.exact=0; } if(c%31==13) p.pNoModel=0.98;
  return p;
}
// silence the library's progress messages
struct Quiet { int o; Quiet(bool on):o(-1){ if(!on) return; fflush(stdout); o=dup(1); int n=open("/dev/null",O_WRONLY); dup2(n,1); close(n); } ~Quiet(){ if(o<0) return; fflush(stdout); dup2(o,1); close(o); } };
// extreme sizes, iteration limits and probabilities
template<class Rob> inline void extremes(Rng&g,int c,Rob&rs,Plan&p){ if(c%83==40){ rs.max_iterations_=g.i(500,4000); p.inlierBase=g.u(0,0.1); p.inlierVar=g.u(0,0.2); p.pNoModel=g.p(0.3)?g.u(0,0.9):0; } if(c%16==9){ static const double P[]={0,1,0.05,0.3,0.9999999999,1-1e-15,0.999}; rs.probability_=P[g.i(7)]; } }
}
#endif
