// Shared workload generators, independent oracles and reporting for the
// OpenGV runtime monitors.  Nothing in here calls library algorithms.
#ifndef VERIF_COMMON_HPP_
#define VERIF_COMMON_HPP_
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <string.h>
#include <stdarg.h>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <Eigen/Eigen>
#include <opengv/types.hpp>

namespace vf
{
using opengv::bearingVector_t; using opengv::bearingVectors_t;
using opengv::translation_t;   using opengv::translations_t;
using opengv::rotation_t;      using opengv::rotations_t;
using opengv::transformation_t;using opengv::transformations_t;
using opengv::essential_t;     using opengv::essentials_t;
using opengv::complexEssential_t; using opengv::complexEssentials_t;
using opengv::point_t;         using opengv::points_t;
using Eigen::Vector3d; using Eigen::Matrix3d; using Eigen::MatrixXd; using Eigen::VectorXd;

// ---------------------------------------------------------------- random
struct Rng
{
  uint64_t s[2];
  static uint64_t mix(uint64_t &x)
  { uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z>>30))*0xBF58476D1CE4E5B9ull; z = (z ^ (z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  explicit Rng(uint64_t seed=1, uint64_t stream=0)
  { uint64_t x = seed*0x2545F4914F6CDD1Dull + stream*0xD1342543DE82EF95ull + 77; s[0]=mix(x); s[1]=mix(x); }
  uint64_t next()
  { uint64_t a=s[0], b=s[1]; s[0]=b; a^=a<<23; s[1]=a^b^(a>>18)^(b>>5); return s[1]+b; }
  double u() { return (next()>>11)*(1.0/9007199254740992.0); }
  double u(double lo,double hi) { return lo+(hi-lo)*u(); }
  int    i(int n) { return n<=0?0:(int)(next()%(uint64_t)n); }            // [0,n)
  int    i(int lo,int hi) { return lo+i(hi-lo+1); }                       // [lo,hi]
  bool   p(double q) { return u()<q; }
  double n() { double a=u(); if(a<1e-300)a=1e-300; return sqrt(-2*log(a))*cos(2*M_PI*u()); }
  Vector3d nv() { double a=n(),b=n(),c=n(); return Vector3d(a,b,c); }
  Vector3d unit() { Vector3d v; do v=nv(); while(v.norm()<1e-3); return v/v.norm(); }
  Vector3d box(double h) { double a=u(-h,h),b=u(-h,h),c=u(-h,h); return Vector3d(a,b,c); }
  Matrix3d rotAxis(const Vector3d &ax,double ang) { return Eigen::AngleAxisd(ang,ax).toRotationMatrix(); }
  Matrix3d rot() { Eigen::Vector4d q; do q<<n(),n(),n(),n(); while(q.norm()<1e-3); q/=q.norm();
    return Eigen::Quaterniond(q[0],q[1],q[2],q[3]).toRotationMatrix(); }
  Matrix3d rotMax(double ang) { Vector3d a=unit(); return rotAxis(a,u(-ang,ang)); }
  template<class T> void shuffle(std::vector<T>&v) { for(int k=(int)v.size()-1;k>0;k--) std::swap(v[k],v[i(k+1)]); }
  // k distinct values out of [0,n) in random order
  std::vector<int> subset(int n,int k) { std::vector<int> v(n); for(int q=0;q<n;q++)v[q]=q; shuffle(v); v.resize(k); return v; }
};

// ---------------------------------------------------------------- reporting
// Every monitor logs what it observed; the python driver (check.py) merges the
// shards and turns the records into evidence, known findings and VIOLATION
// lines.  Two kinds of observation exist:
//   fail(key,..)          one event refutes the property
//   rate(key,bad,q,..)    the property bounds the share of bad events of a
//                         stratum of inputs by q (decided on the merged counts)
struct Stratum { uint64_t n,bad; double q,tol; std::map<int,uint64_t> hist; std::string ex; int64_t exCase; std::string exStratum; Stratum():n(0),bad(0),q(0),tol(-1),exCase(-1){} };
struct Reporter
{
  std::string prop, tier; uint64_t seed; FILE *out;
  uint64_t evals; std::map<std::string,uint64_t> counts; std::map<std::string,uint64_t> viol;
  std::map<std::string,Stratum> strata;
  std::set<uint64_t> distinct; std::vector<std::string> samples; std::map<std::string,double> maxi;
  int maxPerKey, shard, nshards; std::string only, curS; int64_t onlyCase, curC; double scale;
  Reporter():tier("quick"),seed(1),out(stdout),evals(0),maxPerKey(2),shard(0),nshards(1),onlyCase(-1),curC(-1),scale(1){}
  bool thorough() const { return tier=="thorough"; }
  int N(int q,int t) const { return std::max(1,(int)(scale*(thorough()?t:q))); }
  static uint64_t h(uint64_t a,uint64_t b){ a^=b+0x9E3779B97F4A7C15ull+(a<<6)+(a>>2); return a*0xff51afd7ed558ccdull; }
  static uint64_t hs(const std::string&s){ uint64_t x=1469598103934665603ull; for(unsigned char c: s){ x^=c; x*=1099511628211ull; } return x; }
  void cov(const std::string &k,uint64_t n=1){ counts[k]+=n; }
  void ev(uint64_t sig){ evals++; if(distinct.size()<3000000) distinct.insert(sig); }
  void ev(uint64_t a,double x){ uint64_t b; memcpy(&b,&x,8); ev(h(a,b)); }
  void mx(const std::string &k,double v){ if(!(v==v)) return; auto it=maxi.find(k); if(it==maxi.end()||v>it->second) maxi[k]=v; }
  static std::string esc(const std::string &s){ std::string r; for(char c: s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c=='\n') r+="\\n"; else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
  void sample(const char *fmt,...) __attribute__((format(printf,2,3)))
  { if(samples.size()>=3) return; char b[700]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); samples.push_back(b); }
  // key: stable identification of WHAT fails (site/class of input)
  void fail(const std::string &key,const char *fmt,...) __attribute__((format(printf,3,4)))
  {
    uint64_t n=++viol[key]; if((int)n>maxPerKey) return;
    char b[4000]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a);
    fprintf(out,"{\"t\":\"viol\",\"key\":\"%s\",\"msg\":\"%s\",\"stratum\":\"%s\",\"case\":%lld}\n",esc(key).c_str(),esc(b).c_str(),esc(curS).c_str(),(long long)curC); fflush(out);
  }
  void rate(const std::string &key,bool bad,double q,const char *fmt,...) __attribute__((format(printf,5,6)))
  {
    Stratum &s=strata[key]; s.n++; s.q=q; if(!bad) return;
    if(s.bad++==0){ char b[3000]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); s.ex=b; s.exCase=curC; s.exStratum=curS; }
  }
  // numeric error e of one observation against tolerance tol; the share of
  // observations beyond tol (or NaN) is bounded by q
  void err(const std::string &key,double e,double tol,double q,const char *fmt,...) __attribute__((format(printf,6,7)))
  {
    bool bad=!(e<=tol); Stratum &s=strata[key]; s.n++; s.q=q; s.tol=tol;
    s.hist[!(e==e)||std::isinf(e)?99:e<=1e-17?-17:(int)floor(log10(e))]++;
    if(!bad) return;
    if(s.bad++==0){ char b[3000]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); s.ex=str0("error %.3g > %.3g: ",e,tol)+b; s.exCase=curC; s.exStratum=curS; }
  }
  static std::string str0(const char*f,double a,double b){ char x[100]; snprintf(x,sizeof x,f,a,b); return x; }
  // run f(rng,case) for the cases of this shard of one stratum
  template<class F> void each(const std::string &stratum,int n,F f)
  {
    if(!only.empty()&&only!=stratum) return;
    uint64_t st=hs(stratum);
    for(int c=0;c<n;c++)
    {
      if(onlyCase>=0&&c!=onlyCase) continue;
      if(onlyCase<0&&(int)((c+st)%nshards)!=shard) continue;
      curS=stratum; curC=c; crumb();
      Rng g(seed,st+((uint64_t)c<<1));
      unsigned long long e0=evals; f(g,c); if(autos.size()<2) autos.push_back("stratum "+stratum+" case "+std::to_string(c)+": "+std::to_string(evals-e0)+" evaluations"); cov("cases:"+stratum.substr(0,stratum.find('/')));
    }
    curS="";curC=-1; crumb();
  }
  std::vector<std::string> autos;
  void crumb();   // publishes the running case for the crash / hang handlers (main.cpp)
  void finish()
  {
    if(samples.empty()) samples=autos;
    fprintf(out,"{\"t\":\"end\",\"evals\":%llu,\"distinct\":%llu,\"counts\":{",(unsigned long long)evals,(unsigned long long)distinct.size());
    bool f=true; for(auto&k:counts){ fprintf(out,"%s\"%s\":%llu",f?"":",",esc(k.first).c_str(),(unsigned long long)k.second); f=false; }
    fprintf(out,"},\"max\":{"); f=true;
    for(auto&k:maxi){ fprintf(out,"%s\"%s\":%.6g",f?"":",",esc(k.first).c_str(),std::isinf(k.second)?1e300:k.second); f=false; }
    fprintf(out,"},\"viol\":{"); f=true;
    for(auto&k:viol){ fprintf(out,"%s\"%s\":%llu",f?"":",",esc(k.first).c_str(),(unsigned long long)k.second); f=false; }
    fprintf(out,"},\"strata\":{"); f=true;
    for(auto&k:strata){ fprintf(out,"%s\"%s\":{\"n\":%llu,\"bad\":%llu,\"q\":%.6g,\"tol\":%.6g,\"ex\":\"%s\",\"stratum\":\"%s\",\"case\":%lld,\"hist\":{",f?"":",",esc(k.first).c_str(),(unsigned long long)k.second.n,(unsigned long long)k.second.bad,k.second.q,k.second.tol,esc(k.second.ex).c_str(),esc(k.second.exStratum).c_str(),(long long)k.second.exCase); bool h0=true; for(auto&x:k.second.hist){ fprintf(out,"%s\"%d\":%llu",h0?"":",",x.first,(unsigned long long)x.second); h0=false; } fprintf(out,"}}"); f=false; }
    fprintf(out,"},\"samples\":["); f=true;
    for(auto&s:samples){ fprintf(out,"%s\"%s\"",f?"":",",esc(s).c_str()); f=false; }
    fprintf(out,"]}\n"); fflush(out);
  }
};

// ---------------------------------------------------------------- small math (independent of the library)
inline Matrix3d skew(const Vector3d &v){ Matrix3d m; m<<0,-v[2],v[1], v[2],0,-v[0], -v[1],v[0],0; return m; }
template<class D> inline bool fin(const Eigen::MatrixBase<D>&m){ for(int r=0;r<m.rows();r++)for(int c=0;c<m.cols();c++) if(!std::isfinite(m(r,c))) return false; return true; }
inline double rotErr(const Matrix3d &a,const Matrix3d &b){ if(!fin(a)||!fin(b)) return INFINITY; return (a-b).norm(); }
inline double so3Err(const Matrix3d &R){ if(!fin(R)) return INFINITY; return (R*R.transpose()-Matrix3d::Identity()).norm()+fabs(R.determinant()-1.0); }
inline double angleOf(const Matrix3d &R){ double c=(R.trace()-1)/2; Vector3d s(R(2,1)-R(1,2),R(0,2)-R(2,0),R(1,0)-R(0,1)); return atan2(0.5*s.norm(),c); }
inline double poseErr(const transformation_t &T,const Matrix3d &R,const Vector3d &t)
{ if(!fin(T)) return INFINITY; return (T.block<3,3>(0,0)-R).norm()+(T.col(3)-t).norm(); }
inline double vecAngle(const Vector3d &a,const Vector3d &b){ return atan2(a.cross(b).norm(),a.dot(b)); }
inline double essErr(const Matrix3d &E,const Matrix3d &Et) // up to scale and sign
{ if(!fin(E)||E.norm()<1e-300) return INFINITY; Matrix3d a=E/E.norm(),b=Et/Et.norm(); return std::min((a-b).norm(),(a+b).norm()); }
inline std::string str(const char*f,...){ char b[2000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
inline std::string vs(const MatrixXd &m){ std::string s="["; for(int r=0;r<m.rows();r++){ if(r)s+="; "; for(int c=0;c<m.cols();c++) s+=str("%s%.9g",c?" ":"",m(r,c)); } return s+"]"; }
inline std::string iv(const std::vector<int>&v){ std::string s="["; for(size_t i=0;i<v.size()&&i<60;i++) s+=str("%s%d",i?",":"",v[i]); if(v.size()>60) s+=",..."; return s+"]"; }
inline std::vector<int> iota(int n){ std::vector<int> v(n); for(int i=0;i<n;i++) v[i]=i; return v; }

// ---------------------------------------------------------------- scenes
// Absolute pose: x_world = R * x_body + t ; x_body = Rc * x_cam + oc
struct AbsScene
{
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Vector3d t; Matrix3d R; translations_t co; rotations_t cr; bearingVectors_t f; points_t p; std::vector<int> cc;
  int n() const { return (int)p.size(); }
  void add(const Vector3d &pw,int cam){ Vector3d b=R.transpose()*(pw-t); Vector3d c=cr[cam].transpose()*(b-co[cam]); p.push_back(pw); f.push_back(c/c.norm()); cc.push_back(cam); }
};
struct AbsOpt { int n,cams; double posScale,depthMin,depthMax,offset,fov,rotMax; bool planar; double noise;
  AbsOpt():n(10),cams(0),posScale(2),depthMin(4),depthMax(8),offset(0.5),fov(M_PI),rotMax(M_PI),planar(false),noise(0){} };
// cams==0: central (one camera at the origin with identity orientation)
inline AbsScene makeAbs(Rng &g,const AbsOpt &o)
{
  AbsScene s; s.t=g.box(o.posScale); s.R=o.rotMax>=M_PI?g.rot():g.rotMax(o.rotMax);
  if(o.cams==0){ s.co.push_back(Vector3d::Zero()); s.cr.push_back(Matrix3d::Identity()); }
  else for(int c=0;c<o.cams;c++){ s.co.push_back(o.offset*g.unit()); s.cr.push_back(g.rot()); }
  Vector3d axis=g.unit(); Vector3d pn=g.unit();
  for(int k=0;k<o.n;k++)
  {
    int cam=k%(int)s.co.size(); Vector3d d;
    do d=g.unit(); while(vecAngle(d,axis)>o.fov);
    Vector3d body=g.u(o.depthMin,o.depthMax)*d;
    if(o.planar){ // plane pn.x = depthMin in the body frame
      do { d=g.unit(); } while(fabs(d.dot(pn))<0.3); if(d.dot(pn)<0) d=-d; body=d*(o.depthMin/d.dot(pn)); }
    s.add(s.R*body+s.t,cam);
  }
  if(o.noise>0) for(auto&f:s.f){ f=f+o.noise*g.nv(); f/=f.norm(); }
  return s;
}

// Relative pose: x_1 = R * x_2 + t  (t: position of viewpoint 2 in frame 1)
// bearing in camera c of viewpoint v: cr^T (x_v - co)
struct RelScene
{
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Vector3d t; Matrix3d R; translations_t co; rotations_t cr; bearingVectors_t f1,f2; std::vector<int> c1,c2; points_t p;
  int n() const { return (int)f1.size(); }
  Matrix3d E() const { return skew(t)*R; }
  void add(const Vector3d &p1,int a,int b)
  { Vector3d x=cr[a].transpose()*(p1-co[a]); Vector3d p2=R.transpose()*(p1-t); Vector3d y=cr[b].transpose()*(p2-co[b]);
    p.push_back(p1); f1.push_back(x/x.norm()); f2.push_back(y/y.norm()); c1.push_back(a); c2.push_back(b); }
};
struct RelOpt { int n,cams; double tMax,tMin,rotMax,depthMin,depthMax,offset,fov; double noise; bool samecam; bool distinctcam;
  RelOpt():n(10),cams(0),tMax(2),tMin(0.3),rotMax(0.5),depthMin(4),depthMax(8),offset(0.5),fov(M_PI),noise(0),samecam(true),distinctcam(false){} };
inline RelScene makeRel(Rng &g,const RelOpt &o)
{
  RelScene s; s.R=o.rotMax>=M_PI?g.rot():g.rotMax(o.rotMax); s.t=o.tMax<=0?Vector3d(0,0,0):Vector3d(g.unit()*g.u(o.tMin,o.tMax));
  if(o.cams==0){ s.co.push_back(Vector3d::Zero()); s.cr.push_back(Matrix3d::Identity()); }
  else for(int c=0;c<o.cams;c++){ s.co.push_back(o.offset*g.unit()); s.cr.push_back(g.rot()); }
  Vector3d axis=g.unit();
  for(int k=0;k<o.n;k++)
  { Vector3d d; do d=g.unit(); while(vecAngle(d,axis)>o.fov);
    int a=k%(int)s.co.size(), b=a; if(!o.samecam) b=g.i((int)s.co.size());
    s.add(g.u(o.depthMin,o.depthMax)*d,a,b); }
  if(o.noise>0) for(int k=0;k<s.n();k++){ s.f1[k]+=o.noise*g.nv(); s.f1[k]/=s.f1[k].norm(); s.f2[k]+=o.noise*g.nv(); s.f2[k]/=s.f2[k].norm(); }
  return s;
}

} // namespace vf
#endif
