// P28  results do not depend on uninitialised memory
#include "worlds.hpp"
#include <alloca.h>
#include <new>
using namespace vf;
// every heap block and the stack below the call are filled with a pattern first
static volatile int g_pat=-1; static volatile long g_blocks=0;
extern "C" { void*__libc_malloc(size_t); void __libc_free(void*);
void*malloc(size_t n){ void*p=__libc_malloc(n); if(p&&g_pat>=0){ memset(p,g_pat,n); g_blocks++; } return p; }
void free(void*p){ __libc_free(p); } }
void*operator new(size_t n){ void*p=malloc(n?n:1); if(!p) abort(); return p; } void operator delete(void*p) noexcept { free(p); } void operator delete(void*p,size_t) noexcept { free(p); }
static void __attribute__((noinline)) fillStack(int pat){ volatile char*p=(volatile char*)alloca(768<<10); memset((void*)p,pat,768<<10); asm volatile(""::"r"(p):"memory"); }
static Raw __attribute__((noinline)) patterned(const Call&c,int pat){ fillStack(pat); g_pat=pat; Raw r=call(c); g_pat=-1; return r; }
static void check(Reporter&R,Rng&g,const std::string&w,const WOpt&o)
{
  static const int pats[]={0x00,0xff,0x3f,0xc1,0x7e}; uint64_t seed=g.next(); Rng a(seed); int p0=pats[g.i(5)],p1; do p1=pats[g.i(5)]; while(p1==p0);
  g_pat=p0; fillStack(p0); auto W=makeWorld(a,w,o); g_pat=-1; Rng b(seed); g_pat=p1; fillStack(p1); auto V=makeWorld(b,w,o); g_pat=-1; // objects constructed on different memory
  for(size_t k=0;k<W->calls.size();k++)
  { const Call&c=W->calls[k]; if(!c.det) continue; long n0=g_blocks; Raw x=patterned(c,p0),y=patterned(V->calls[k],p1); R.cov("heap blocks filled",g_blocks-n0); R.ev(Reporter::h(Reporter::hs(c.name+o.hostile),seed)); R.cov("calls "+w);
    if(!sameBits(x,y)) R.fail(c.name.substr(0,c.name.find('/'))+"/"+(o.hostile=="none"?"":o.hostile),"%s, %s: memory filled with 0x%02x or 0x%02x: %s",c.name.c_str(),o.hostile.c_str(),p0,p1,firstDiff(x,y).c_str()); }
}
void monitor(Reporter&R)
{
  for(auto&w:worldNames()){ bool six=w.find("sixpt")!=std::string::npos||w.find("-ge")!=std::string::npos; int n=w=="abs"||w=="rel"?60:w=="math"?20:six?4:20;
    for(auto&h:hostiles()) if(sane(h)) R.each(w+"/"+h,R.N(h=="none"?3*n:n,n*30),[&](Rng&g,int c){ WOpt o; o.hostile=h; o.minimal=c%3==0; o.big=c%7==4; o.slow=c%10==0; static const char*fl[]={"std","std","near","tiny","rotaxis"}; o.fl=fl[c%5]; check(R,g,w,o); }); }
}
