// P26  concurrent estimations: ThreadSanitizer watches for races, every result is compared bit for bit with the one obtained alone
#include "worlds.hpp"
#include <thread>
#include <atomic>
#include <sched.h>
using namespace vf;
static bool mutates(const std::string&n){ return n.find("rel_nonlin")==0||n.find("pc_nonlin")==0; } // take the adapter by non-const reference
struct Job { const Call*c; Raw r; Job():c(0){} };
struct Start { std::atomic<int> n; int total; Start(int t):n(0),total(t){} void wait(){ n++; while(n<total) sched_yield(); } };
static void runThreads(std::vector<std::vector<Job> >&jobs)
{
  Start st((int)jobs.size()); std::vector<std::thread> th;
  for(auto&j:jobs) th.emplace_back([&st,&j]{ st.wait(); for(auto&x:j) x.r=call(*x.c); });
  for(auto&t:th) t.join();
}
static void check(Reporter&R,Rng&g,int c,const std::vector<std::string>&w,bool shared,const WOpt&o)
{
  // build all worlds first; thread k calls the functions of its own world (or of the common one) in its own order
  int T=(int)w.size(); std::vector<std::shared_ptr<World> > W; uint64_t seed=g.next(); for(int k=0;k<T;k++){ if(shared&&k){ W.push_back(W[0]); continue; } Rng a(shared?seed:seed+k/2); W.push_back(makeWorld(a,w[k],o)); } // neighbours use equal data
  std::vector<std::vector<Job> > jobs(T);
  for(int k=0;k<T;k++){ VI ord; for(size_t i=0;i<W[k]->calls.size();i++) if(!shared||!mutates(W[k]->calls[i].name)) ord.push_back((int)i); g.shuffle(ord); if((int)ord.size()>(shared?60:40)) ord.resize(shared?60:40); for(int i:ord){ Job j; j.c=&W[k]->calls[i]; jobs[k].push_back(j); } }
  Raw s0=W[0]->snap(); runThreads(jobs); if(shared&&!sameBits(s0,W[0]->snap())) R.fail("shared-input","a shared data set changed: %s",firstDiff(s0,W[0]->snap()).c_str());
  R.cov(shared?"rounds on shared data":"rounds on separate data"); R.cov("thread runs",T);
  for(int k=0;k<T;k++) for(auto&j:jobs[k]){ R.ev(Reporter::h(Reporter::hs(j.c->name+w[k]),seed+k)); R.cov("concurrent calls"); if(!j.c->det||!sane(o.hostile)) continue; Raw x=call(*j.c); R.cov("results compared with the sequential ones"); if(!sameBits(x,j.r)) R.fail("result:"+j.c->name.substr(0,j.c->name.find('/')),"%s alone and among %d threads: %s",j.c->name.c_str(),T,firstDiff(x,j.r).c_str()); }
}
void monitor(Reporter&R)
{
  static const char*fl[]={"std","std","near","tiny","rotaxis"}; const std::vector<std::string>&N=worldNames();
  auto opt=[&](Rng&g,int c){ WOpt o; o.slow=c%5==0; o.minimal=c%3==0; o.big=c%7==4; o.fl=fl[c%5]; o.hostile=g.p(0.7)?"none":hostiles()[g.i((int)hostiles().size())]; return o; };
  for(auto&w:N) R.each("same/"+w,R.N(w.find("sixpt")!=std::string::npos?2:6,150),[&](Rng&g,int c){ WOpt o=opt(g,c); check(R,g,c,std::vector<std::string>(4,w),false,o); });
  R.each("mixed",R.N(40,2000),[&](Rng&g,int c){ WOpt o=opt(g,c); std::vector<std::string> w; for(int k=0;k<4;k++){ std::string x; do x=N[g.i((int)N.size())]; while(x.find("sixpt")!=std::string::npos&&!o.slow); w.push_back(x); } check(R,g,c,w,false,o); });
  for(const char*w:{"abs","rel","pc","math"}) R.each(std::string("shared/")+w,R.N(w[0]=='r'?16:10,400),[&](Rng&g,int c){ WOpt o=opt(g,c); check(R,g,c,std::vector<std::string>(4,w),true,o); });
}
