// Entry point shared by all monitors: argument parsing, crash and hang
// breadcrumbs.  Each monitor binary links exactly one p_*.cpp.
#include "common.hpp"
#include <signal.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>

void monitor(vf::Reporter &R);

static char g_crumb[512]; static volatile long g_cpuBudget=0;
static void arm(){ if(!g_cpuBudget) return; itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec=g_cpuBudget; setitimer(ITIMER_PROF,&t,0); }
void vf::Reporter::crumb()
{ snprintf(g_crumb,sizeof g_crumb,"\"stratum\":\"%s\",\"case\":%lld",esc(curS).c_str(),(long long)curC); arm(); }
static void die(const char *kind,int sig)
{ char b[900]; int n=snprintf(b,sizeof b,"\n{\"t\":\"%s\",\"sig\":%d,%s}\n",kind,sig,g_crumb[0]?g_crumb:"\"stratum\":\"\",\"case\":-1"); if(write(1,b,n)){}
}
static void onCrash(int s){ die("crash",s); signal(s,SIG_DFL); raise(s); }
static void onHang(int s){ die("hang",s); _exit(124); }

int main(int argc,char**argv)
{
  vf::Reporter R; bool sani=false; long cpu=30;
  for(int i=1;i<argc;i++)
  { std::string a=argv[i]; auto nx=[&]{ return i+1<argc?std::string(argv[++i]):std::string(); };
    if(a=="--tier") R.tier=nx(); else if(a=="--seed") R.seed=strtoull(nx().c_str(),0,10); else if(a=="--prop") R.prop=nx();
    else if(a=="--shard"){ std::string s=nx(); sscanf(s.c_str(),"%d/%d",&R.shard,&R.nshards); }
    else if(a=="--only") R.only=nx(); else if(a=="--case") R.onlyCase=atoll(nx().c_str());
    else if(a=="--cpu") cpu=atol(nx().c_str()); else if(a=="--scale") R.scale=atof(nx().c_str()); else if(a=="--sani") sani=true; }
  g_cpuBudget=cpu; signal(SIGPROF,onHang);
  signal(SIGABRT,onCrash); signal(SIGFPE,onCrash);
  if(!sani){ signal(SIGSEGV,onCrash); signal(SIGBUS,onCrash); signal(SIGILL,onCrash); }
  setvbuf(stdout,0,_IOLBF,1<<16);
  monitor(R);
  R.finish(); fflush(stdout);
  return 0;
}
