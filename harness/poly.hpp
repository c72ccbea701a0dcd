// P10 closed-form cubic / quartic roots, P11 Sturm sequences
#include "common.hpp"
#include <opengv/math/roots.hpp>
#include <opengv/math/Sturm.hpp>
#include <complex>
using namespace vf;
typedef std::complex<double> C; typedef std::vector<C> Cs; typedef std::vector<double> Ds;

// ---- independent ground truth: the coefficients are expanded (in long double)
// from roots the workload chose, so the exact roots are known
static Ds expand(const Cs&r,double lead)
{ std::vector<std::complex<long double>> p(1,1.0L); for(auto&x:r){ p.push_back(0); for(int k=(int)p.size()-1;k>0;k--) p[k]-=p[k-1]*std::complex<long double>(x); }
  Ds o; for(auto&c:p) o.push_back((double)(c.real()*lead)); return o; }
static double evalAbs(const Ds&p,double x,double&mag){ double v=0; mag=0; for(double c:p){ v=v*x+c; mag=mag*fabs(x)+fabs(c); } return v; }
static double sep(const Cs&r){ double s=INFINITY,m=0; for(size_t i=0;i<r.size();i++){ m=std::max(m,std::abs(r[i])); for(size_t j=0;j<i;j++) s=std::min(s,std::abs(r[i]-r[j])); } return r.size()<2?1:s/std::max(m,1e-300); }
static double scaleOf(const Cs&r){ double m=0; for(auto&x:r) m=std::max(m,std::abs(x)); return m>0?m:1; }
// distance of multiset a to multiset b (same size, sorted greedy over permutations)
static double multiset(Ds a,Ds b){ if(a.size()!=b.size()) return INFINITY; for(double x:a) if(!std::isfinite(x)) return INFINITY; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); double m=0; for(size_t k=0;k<a.size();k++) m=std::max(m,fabs(a[k]-b[k])); return m; }

static Cs makeRoots(Rng&g,int n,int kind)
{
  // kind 0 all real; 1 one complex pair; 2 two complex pairs (n>=4); 3 double root; 4 triple; 5 quadruple / all equal
  // 6 biquadratic (symmetric); 7 integer roots; 8 contains zero; 9 two double roots; 10 tiny/huge scale
  Cs r; auto re=[&]{ return C(g.u(-5,5),0); };
  int k=0;
  if(kind==1&&n>=2){ C z(g.u(-3,3),g.u(0.1,3)); r.push_back(z); r.push_back(std::conj(z)); k=2; }
  if(kind==2&&n>=4){ for(int q=0;q<2;q++){ C z(g.u(-3,3),g.u(0.1,3)); r.push_back(z); r.push_back(std::conj(z)); } k=4; }
  if(kind==3){ C z=re(); r.push_back(z); r.push_back(z); k=2; }
  if(kind==4){ C z=re(); for(int q=0;q<3;q++) r.push_back(z); k=3; }
  if(kind==5){ C z(g.i(-4,4),0); for(int q=0;q<n;q++) r.push_back(z); k=n; }
  if(kind==6&&n==4){ C a=g.p(0.5)?C(g.u(0.2,4),0):C(0,g.u(0.2,4)); C b=g.p(0.5)?C(g.u(0.2,4),0):C(0,g.u(0.2,4)); double s=g.p(0.5)?0:g.i(-3,3); r={s+a,s-a,s+b,s-b}; k=4; }
  if(kind==6&&n==3){ double a=g.u(0.3,4); r={C(a,0),C(-a,0),C(0,0)}; k=3; }
  if(kind==7){ while((int)r.size()<n) r.push_back(C(g.i(-6,6),0)); k=n; }
  if(kind==8){ r.push_back(C(0,0)); k=1; }
  if(kind==9&&n>=4){ C a=re(),b=re(); r={a,a,b,b}; k=4; }
  while((int)r.size()<n) r.push_back(re());
  if(kind==10){ double s=pow(10,g.u(-3,3)); for(auto&x:r) x*=s; }
  if(kind==11&&n>=2){ double c=g.u(-3,3); for(int q=0;q<n;q++) r[q]=c+g.u(-1,1)*1e-2; }
  g.shuffle(r); return r;
}
static const char* kinds[]={"real","pair","twopairs","double","triple","allequal","symmetric","integer","zero","twodouble","scaled","cluster"};

#ifdef VF_STURM
static Ds realRoots(const Cs&r){ Ds o; for(auto&x:r) if(x.imag()==0) o.push_back(x.real()); std::sort(o.begin(),o.end()); return o; }
static int countIn(const Ds&r,double a,double b){ int n=0; for(double x:r) if(x>a&&x<=b) n++; return n; }
static Cs sturmRoots(Rng&g,int deg,int kind,double minSep)
{ for(int guard=0;guard<4000;guard++){ Cs r; 
    int nreal=kind==1?0:kind==2?1:kind==3||kind==8?deg:g.i(0,deg); if((deg-nreal)%2) nreal=nreal>0?nreal-1:nreal+1;
    while((int)r.size()<nreal) r.push_back(C(g.u(-1,1),0)); while((int)r.size()<deg){ C z(g.u(-1,1),g.u(0.05,1)); r.push_back(z); r.push_back(std::conj(z)); }
    if(kind==4) for(auto&x:r) x*=5; if(kind==5) for(auto&x:r) x*=0.05; if(kind==6) for(auto&x:r) x+=C(2,0);
    if(kind==7){ if(nreal>0) for(auto&x:r) if(x.imag()==0){ x=0; break; } }
    if(sep(r)>minSep) return r; } return Cs(); }
static const char* sk[]={"mixed","noreal","onereal","allreal","wide","small","offset","zeroroot","close"};
// largest distance of a returned root from the true one, in units of the shift that rounding the coefficients once causes
static double conditioned(Ds got,Ds want,const Ds&p)
{ std::sort(got.begin(),got.end()); std::sort(want.begin(),want.end()); if(got.size()!=want.size()) return -1; double w=0; int n=(int)p.size()-1;
  for(size_t k=0;k<got.size();k++){ double x=want[k],S=0,D=0; for(int i=0;i<=n;i++){ S+=fabs(p[i]*pow(x,n-i)); if(i<n) D+=(n-i)*p[i]*pow(x,n-i-1); } double u=2.2e-16*(S/std::max(fabs(D),1e-300)+fabs(x)); w=std::max(w,fabs(got[k]-x)/std::max(u,1e-300)); }
  return w; }
void monitor(Reporter&R)
{
  for(int deg=1;deg<=10;deg++) for(int kind=0;kind<9;kind++)
  {
    if(kind==8&&(deg<2||deg>4)) continue; if(kind==1&&deg%2) continue; if(kind==2&&deg%2==0) continue; if(deg==1&&(kind==3||kind==7)) continue;
    std::string tag=str("sturm/deg%d/%s",deg,sk[kind]);
    R.each(tag,R.N(250,6000),[&](Rng&g,int c)
    {
      double ms=deg<=4?0.05:deg<=7?0.08:0.1; Cs r=sturmRoots(g,deg,kind,ms); if(r.empty()) return;
      if(kind==8){ Ds q0=realRoots(r); double gap=pow(10,g.u(-3,-1.3)); double x=q0[g.i((int)q0.size())]; bool done=false; for(auto&z:r) if(z.imag()==0&&z.real()!=x&&!done){ z=C(x+gap,0); done=true; } if(!done) return; }
      double lead=(g.p(0.5)?1:-1)*pow(10,g.u(-2,2)); if(c%5==0) lead=1; Ds p=expand(r,lead); Ds rr=realRoots(r); double sc=scaleOf(r); R.ev(Reporter::hs(tag),p[deg]);
      MatrixXd pm(1,deg+1); for(int k=0;k<=deg;k++) pm(0,k)=p[k];
      opengv::math::Sturm s(p), s2(pm);
      double B=s.computeLagrangianBound();
      double worst=0; for(double x:rr) worst=std::max(worst,fabs(x));
      if(!(B*(1+1e-9)>=worst)) R.fail("bound","Lagrangian bound %.9g misses the real root %.9g",B,worst);
      if(B!=s2.computeLagrangianBound()) R.fail("ctor","matrix and vector constructors give different bounds");
      std::string d=deg<=4?"low":deg<=7?"mid":"high"; double q=deg<=4?0.0001:deg<=7?0.0001:0.0003;
      // sign-change counts at arbitrary abscissae = number of real roots in between
      for(int k=0;k<4;k++){ double a,b; bool near; do { a=sc*g.u(-1.3,1.3); b=sc*g.u(-1.3,1.3); if(a>b) std::swap(a,b); near=false; for(double x:rr) if(fabs(x-a)<1e-3*sc||fabs(x-b)<1e-3*sc) near=true; } while(near);
        int want=countIn(rr,a,b); int g1=(int)s.evaluateChain2(a)-(int)s.evaluateChain2(b), g2=(int)s.evaluateChain(a)-(int)s.evaluateChain(b), g3=(int)s2.evaluateChain2(a)-(int)s2.evaluateChain2(b);
        R.rate("count/"+d,g1!=want,q,"%d sign changes between %.6g and %.6g, %d real roots; degree %d",g1,a,b,want,deg);
        R.rate("count1/"+d,g2!=want,q,"evaluateChain: %d sign changes, %d real roots",g2,want); R.rate("countm/"+d,g3!=want,q,"matrix constructor: %d sign changes, %d real roots",g3,want); }
      // all real roots, once each
      Ds f=s.findRoots(), f2=s2.findRoots(); 
      R.err("findRoots/"+d+"/"+sk[kind],multiset(f,rr)/sc,1e-6,q*2.5,"degree %d: %zu roots returned, %zu real roots: %s",deg,f.size(),rr.size(),vs(Eigen::Map<const VectorXd>(p.data(),p.size())).c_str());
      R.err("findRootsM/"+d+"/"+sk[kind],multiset(f2,rr)/sc,1e-6,q*2.5,"degree %d (matrix): %zu roots, %zu real roots",deg,f2.size(),rr.size());
      double cf=conditioned(f,rr,p); if(cf>=0&&kind!=7) R.err("findRoots:accuracy/"+d+"/"+sk[kind],cf,1e3,q*2.5,"degree %d: a root is off by %.3g rounding units of the coefficients: %s",deg,cf,vs(Eigen::Map<const VectorXd>(p.data(),p.size())).c_str());
      R.cov("real roots",rr.size()); R.cov(str("degree %d",deg));
      // bracketing to a requested width
      double eps=pow(10,g.u(-5,-0.5))*sc; Ds br; s.bracketRoots(br,eps);
      R.err("bracket/"+d,multiset(br,rr)/eps,1.0, 0.0003,"bracketRoots(eps=%.3g) returned %zu for %zu real roots",eps,br.size(),rr.size());
      // combined bracketing / polishing; eps_val is an absolute value tolerance
      if(deg<=10){ double ev=1e-9*fabs(lead)*pow(sc,deg); Ds f3; s.findRoots2(f3,1e-6*sc,ev); double tolr=1e-2; 
        R.err("findRoots2/"+d+"/"+sk[kind],multiset(f3,rr)/sc,tolr,q*2.5,"findRoots2: %zu roots, %zu real roots (degree %d)",f3.size(),rr.size(),deg); }
      // default arguments: for every root reported, a real root is at hand within the bracket/value tolerance
      if(c<1) R.sample("%s: roots %s -> findRoots %zu values, bound %.4g",tag.c_str(),vs(Eigen::Map<const VectorXd>(rr.data(),rr.size()).transpose()).c_str(),f.size(),B);
    });
  }
}
#else
static void poly(Reporter&R,int n)
{
  int nk=12;
  for(int kind=0;kind<nk;kind++)
  {
    if(n==3&&(kind==2||kind==9)) continue;
    std::string tag=str("o%d/%s",n,kinds[kind]);
    R.each(tag,R.N(n==3?3000:3000,300000),[&](Rng&g,int c)
    {
      Cs r; int guard=0; bool simple=kind==0||kind==1||kind==2||kind==6||kind==8||kind==10; do r=makeRoots(g,n,kind); while(simple&&sep(r)<0.05&&guard++<200);
      double lead=(g.p(0.5)?1:-1)*pow(10,g.u(-2,2)); if(kind==7||kind==5||c%7==0) lead=1;
      Ds p=expand(r,lead); double sc=scaleOf(r); R.ev(Reporter::hs(tag),p[n]+p[n-1]*3.1);
      Ds want; for(auto&x:r) want.push_back(x.real());
      Ds o,om; if(n==3) o=opengv::math::o3_roots(p); else { o=opengv::math::o4_roots(p); MatrixXd pm(5,1); for(int k=0;k<5;k++) pm(k,0)=p[k]; om=opengv::math::o4_roots(pm); }
      if((int)o.size()!=n) R.fail(str("o%d:count",n),"%zu values returned",o.size());
      bool ok=true; for(double x:o) if(!std::isfinite(x)) ok=false;
      if(!ok){ R.fail(str("o%d:nonfinite/%s",n,kinds[kind]),"NaN/inf among the roots of %s",vs(Eigen::Map<const VectorXd>(p.data(),p.size()).transpose()).c_str()); return; }
      if(n==4){ bool eq=o.size()==om.size(); for(size_t k=0;eq&&k<o.size();k++) if(fabs(o[k]-om[k])>1e-9*sc) eq=false; R.rate(str("o4:overloads/%s",kinds[kind]),!eq,0.0001,"vector and matrix overloads disagree"); }
      // multiple roots are ill conditioned: error ~ eps^(1/multiplicity)
      double tol=1e-6,q=0.0001; if(kind==3||kind==9||kind==7) { tol=1e-4; q=0.0002; } if(kind==4||kind==5||kind==11){ tol=1e-3; q=0.0002; }
      double e=multiset(o,want)/sc; if(sc==0) e=multiset(o,want);
      R.err(str("o%d:roots/%s",n,kinds[kind]),e,tol,q,"roots of %s: got %s, true real parts %s",vs(Eigen::Map<const VectorXd>(p.data(),p.size()).transpose()).c_str(),vs(Eigen::Map<const VectorXd>(o.data(),o.size()).transpose()).c_str(),vs(Eigen::Map<const VectorXd>(want.data(),want.size()).transpose()).c_str());
      if(c<1) R.sample("%s: %s -> %s",tag.c_str(),vs(Eigen::Map<const VectorXd>(p.data(),p.size()).transpose()).c_str(),vs(Eigen::Map<const VectorXd>(o.data(),o.size()).transpose()).c_str());
    });
  }
  // small integer coefficients: exhaustive cancellation patterns, decided by substituting back
  std::string tag=str("o%d/coefficients",n); int lim=n==3?6*9*9*9:4*5*5*5*5;
  R.each(tag,lim,[&](Rng&,int c)
  {
    Ds p(n+1); int z=c; int b=n==3?9:5; if(n==3){ p[0]=(z%6)-3; if(p[0]>=0) p[0]++; z/=6; } else { p[0]=(z%4)-2; if(p[0]>=0) p[0]++; z/=4; }
    for(int k=1;k<=n;k++){ p[k]=(z%b)-b/2; z/=b; } R.ev(Reporter::hs(tag)+c);
    Ds o=n==3?opengv::math::o3_roots(p):opengv::math::o4_roots(p);
    for(double x:o) if(!std::isfinite(x)){ R.fail(str("o%d:nonfinite/coefficients",n),"NaN/inf among the roots of %s",vs(Eigen::Map<const VectorXd>(p.data(),p.size()).transpose()).c_str()); return; }
    // reference: companion matrix
    MatrixXd M=MatrixXd::Zero(n,n); for(int k=0;k<n;k++) M(0,k)=-p[k+1]/p[0]; for(int k=1;k<n;k++) M(k,k-1)=1; Eigen::VectorXcd ev=M.eigenvalues(); Ds want; double sc=1; for(int k=0;k<n;k++){ want.push_back(ev[k].real()); sc=std::max(sc,std::abs(ev[k])); }
    R.err(str("o%d:coefficients",n),multiset(o,want)/sc,3e-3,0.004,"roots of %s: got %s, reference %s",vs(Eigen::Map<const VectorXd>(p.data(),p.size()).transpose()).c_str(),vs(Eigen::Map<const VectorXd>(o.data(),o.size()).transpose()).c_str(),vs(ev.transpose().real()).c_str());
  });
}
void monitor(Reporter&R){ poly(R,3); poly(R,4); }
#endif
