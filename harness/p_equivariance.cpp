// P22  estimates follow changes of frame, scale, order and role of the viewpoints
#include "solvers.hpp"
using namespace vf;
template<class S,class A> static Sol call(const S&s,A&a){ srand(5); return s.run(a,0); }
static void noise(Rng&g,bearingVectors_t&v,double n){ if(n>0) for(auto&f:v){ f+=n*g.nv(); f/=f.norm(); } }
static MatrixXd pose(const Matrix3d&R,const Vector3d&t){ MatrixXd m(3,4); m.leftCols(3)=R; m.col(3)=t; return m; }
static Matrix3d rot(const MatrixXd&P){ return P.leftCols(3); } static Vector3d tra(const MatrixXd&P){ return P.col(3); }
// distance of two solutions; sc: unit of length, dir: translation up to scale
static double dist(char kind,const MatrixXd&a,const MatrixXd&b,double sc,bool dir)
{
  if(!fin(a)||!fin(b)) return INFINITY; if(kind=='R') return (a-b).norm(); if(kind=='T') return dir?(a-b).norm():(a-b).norm()/sc;
  if(kind=='P') return (rot(a)-rot(b)).norm()+(dir?(tra(a).normalized()-tra(b).normalized()).norm():(tra(a)-tra(b)).norm()/sc);
  auto c=[](const MatrixXd&m){ Eigen::VectorXcd v(9); for(int k=0;k<9;k++) v[k]=std::complex<double>(m(k%3,k/3),m.cols()==6?m(k%3,3+k/3):0); return v; }; Eigen::VectorXcd x=c(a),y=c(b); x/=x.norm(); y/=y.norm(); std::complex<double> d=y.dot(x); if(std::abs(d)<1e-12) return 2; d/=std::abs(d); return (x-d*y).norm();
}
typedef std::function<MatrixXd(const MatrixXd&)> Map;
static MatrixXd mapE(const MatrixXd&m,const Matrix3d&A,const Matrix3d&B){ MatrixXd r(3,m.cols()); for(int k=0;k<(int)m.cols()/3;k++) r.middleCols(3*k,3)=A*Matrix3d(m.middleCols(3*k,3))*B.transpose(); return r; }
static MatrixXd transE(const MatrixXd&m){ MatrixXd r(3,m.cols()); for(int k=0;k<(int)m.cols()/3;k++) r.middleCols(3*k,3)=Matrix3d(m.middleCols(3*k,3)).transpose(); return r; }
// q: tolerated share of (numerically) lost solutions
// keep: which solutions of the untransformed / transformed problem are compared (default: all)
typedef std::function<bool(const MatrixXd&)> Keep;
static void compare(Reporter&R,const std::string&key,const std::string&fl,const Sol&a,const Sol&b,const Map&f,const Map&finv,double sc0,double sc1,bool dir,double tol,double q,Keep ka=Keep(),Keep kb=Keep())
{
  auto one=[&](const Sol&u,const Sol&w,const Map&h,double sc,const Keep&kp,const char*what){ for(auto&x:u.v){ if(!fin(x)||(kp&&!kp(x))) continue; MatrixXd y=h(x); double m=INFINITY; for(auto&z:w.v) m=std::min(m,dist(u.kind,y,z,sc,dir)); R.err(key,m,tol,q,"%s, %s: expected %s in the %zu solutions %s",fl.c_str(),what,vs(y).c_str(),w.v.size(),rs(w).c_str()); } };
  one(a,b,f,sc1,ka,"transformed solution missing"); one(b,a,finv,sc0,kb,"solution without counterpart");
}
struct T { double tol,q; }; static T tolOf(const std::string&n,const std::string&key);
// largest angle between the measured bearings and the directions a pose predicts
static double residual(const AbsScene&s,const MatrixXd&m)
{ double r=0; for(int k=0;k<s.n();k++){ Matrix3d C=Matrix3d::Identity(); Vector3d o(0,0,0); if(!s.co.empty()){ C=s.cr[s.cc[k]]; o=s.co[s.cc[k]]; } Vector3d b=C.transpose()*(rot(m).transpose()*(s.p[k]-tra(m))-o); r=std::max(r,std::sqrt(std::max(0.0,2-2*std::min(1.0,b.normalized().dot(s.f[k].normalized()))))); } return r; }
// change of unit: mostly moderate, sometimes several orders of magnitude
static double wide(Rng&g,double a,double b){ double x=g.p(0.7)?g.u(-a,a):g.u(a,b)*(g.p(0.5)?1:-1); return pow(10,x); }
// the solution closest to the true rotation
static Keep nearest(const Sol&u,const Matrix3d&Rt)
{ double m=INFINITY; MatrixXd best; for(auto&x:u.v) if(fin(x)&&x.cols()>=3&&(Matrix3d(x.leftCols(3))-Rt).norm()<m){ m=(Matrix3d(x.leftCols(3))-Rt).norm(); best=x; } return [best](const MatrixXd&x){ return best.size()&&x==best; }; }
static void absolute(Reporter&R,Rng&g,int c,const AbsSolver&s,const std::string&fl)
{
  bool rig=s.rig==2||(s.rig==1&&c%2); bool gp=s.name=="gpnp"; int n=s.exact?s.need:s.need+g.i(4,25),cams=rig?g.i(2,5):0; AbsCase q; int guard=0;
  do q=makeAbsFlavour(g,fl,n,cams); while((s.prior==2&&M_PI-angleOf(q.s.R)<0.1)||(guard++<200&&n>=3&&(triangleQuality(q.s.p[0],q.s.p[1],q.s.p[2])<0.15||std::min({vecAngle(q.s.f[0],q.s.f[1]),vecAngle(q.s.f[0],q.s.f[2]),vecAngle(q.s.f[1],q.s.f[2])})<0.05))); AbsScene&z=q.s; double nz=gp||c%3==0?0:pow(10,g.u(-6,-3)); noise(g,z.f,nz);
  Matrix3d P=s.prior==1?z.R:Matrix3d(z.R*g.rotMax(0.02)); Vector3d t=z.t+0.02*q.scale*g.nv(); int how=rig?1:0; auto A=absAdapter(z,how); prior(*A->a,P,t); Sol a=call(s,*A->a); R.ev(Reporter::hs(s.name+fl)+c,z.t[0]); R.cov("calls "+s.name);
  for(int tr=0;tr<4;tr++)
  {
    AbsScene y=z; Matrix3d P2=P; Vector3d t2=t; double k=1; Map f,h; const char*nm; Matrix3d Q=g.rot(); Vector3d d; 
    if(tr==0){ nm="world"; k=gp?1:wide(g,2,6); d=k*q.scale*g.box(gp?2:5); for(auto&p:y.p) p=k*(Q*p)+d; for(auto&o:y.co) o*=k; P2=Q*P; t2=k*(Q*t)+d; f=[=](const MatrixXd&m){ if(m.cols()==1) return MatrixXd(k*(Q*m)+d); return pose(Q*rot(m),k*(Q*tra(m))+d); }; h=[=](const MatrixXd&m){ Matrix3d W=Q.transpose(); if(m.cols()==1) return MatrixXd(W*(m-d)/k); return pose(W*rot(m),W*(tra(m)-d)/k); }; }
    else if(tr==1)
    { nm="body"; d=rig?Vector3d(0.5*q.scale*g.nv()):Vector3d(0,0,0); if(!rig) for(auto&b:y.f) b=Q*b; else { for(auto&o:y.co) o=Q*o+d; for(auto&r:y.cr) r=Q*r; } P2=P*Q.transpose(); t2=t-P2*d; f=[=](const MatrixXd&m){ if(m.cols()==1) return m; Matrix3d W=rot(m)*Q.transpose(); return pose(W,tra(m)-W*d); }; h=[=](const MatrixXd&m){ if(m.cols()==1) return m; return pose(rot(m)*Q,tra(m)+rot(m)*d); }; }
    else if(tr==2){ nm="order"; VI o=iota(n); g.shuffle(o); y=subScene(z,o); f=h=[](const MatrixXd&m){ return m; }; }
    else { nm="camera-frames"; if(!rig) continue; rotations_t C; for(size_t j=0;j<y.cr.size();j++){ C.push_back(g.rot()); y.cr[j]=y.cr[j]*C[j]; } for(int j=0;j<n;j++) y.f[j]=C[y.cc[j]].transpose()*y.f[j]; f=h=[](const MatrixXd&m){ return m; }; }
    if(s.prior==2&&M_PI-angleOf(tr==0?Matrix3d(Q*z.R):Matrix3d(z.R*Q.transpose()))<0.15) continue;
    auto B=absAdapter(y,how); prior(*B->a,P2,t2); Sol b=call(s,*B->a); 
    if(tr==2&&s.name=="p2p"&&nz>0) continue; // least squares in an order-dependent frame
    if(s.name=="epnp"&&nz>0&&tr!=2) continue; // control points from principal axes of arbitrary sign
    Keep ka,kb; if(s.name=="upnp"){ ka=nearest(a,z.R); kb=nearest(b,tr==0?Matrix3d(Q*z.R):tr==1?Matrix3d(z.R*Q.transpose()):z.R); }
    else if(s.name=="gp3p"||(tr==2&&s.name.find("p3p")==0)){ ka=[&](const MatrixXd&m){ return residual(z,m)<1e-9; }; kb=[&](const MatrixXd&m){ return residual(y,m)<1e-9; }; }
    std::string key=s.name+":"+nm+(nz>0?"/noise":"/exact"); T tq=tolOf(s.name,key); compare(R,key,fl,a,b,f,h,q.scale,k*q.scale,false,tq.tol,tq.q,ka,kb);
  }
}
static void relative(Reporter&R,Rng&g,int c,const RelSolver&s,const std::string&fl)
{
  bool rig=s.rig==2||(s.rig==1&&c%2); int n=s.exact?s.need:s.need+(c%4==0?0:g.i(1,25)),cams=rig?(s.name=="seventeenpt"?g.i(4,6):g.i(3,6)):0; bool two=s.name.find("twopt")==0,sv=s.name=="seventeenpt",pure=s.name=="twopt_rotationOnly"||s.name=="rotationOnly"; if(s.name=="rel_nonlin"||s.name.find("eigensolver")==0) n+=10; RelCase q; int guard=0; bool bad;
  do { q=makeRelFlavour(g,fl,n,cams,0.5,false); bad=s.prior==2&&M_PI-angleOf(q.s.R)<0.1; for(int k=0;k<n&&!bad&&!rig;k++) if(vecAngle(q.s.f1[k],q.s.R*q.s.f2[k])<0.01) bad=true; if(two&&q.s.f1[0].cross(q.s.f1[1]).norm()<0.1) bad=true; } while(bad&&guard++<200); double nz=c%3==0?0:pow(10,g.u(-6,-3)); RelScene&z=q.s; noise(g,z.f1,nz); noise(g,z.f2,nz); if(s.name=="twopt") { for(auto&f:z.f2) f=z.R*f; z.R.setIdentity(); }
  if(pure) for(int k=0;k<n;k++){ z.f2[k]=z.R.transpose()*z.f1[k]+std::max(nz,1e-9)*g.nv(); z.f2[k]/=z.f2[k].norm(); }
  Matrix3d P=s.prior==1&&two?z.R:Matrix3d(z.R*g.rotMax(0.01)); Vector3d t=z.t+0.01*q.scale*g.nv(); bool dir=!rig; std::vector<double> w(n); for(auto&x:w) x=g.u(0.5,2); bool wt=s.name.find("weighted")!=std::string::npos; int how=wt?3:rig?1:0; auto A=relAdapter(z,how,w); prior(*A->a,P,t); Sol a=call(s,*A->a); R.ev(Reporter::hs(s.name+fl)+c,z.t[0]); R.cov("calls "+s.name);
  for(int tr=0;tr<6;tr++)
  {
    RelScene y=z; Matrix3d P2=P; Vector3d t2=t; double k=1; Map f,h; const char*nm; Matrix3d Q=g.rot(),I=Matrix3d::Identity(); if(s.prior==2||s.name.find("eigensolver")==0) Q=g.rotMax(1.0); Vector3d d(0,0,0); std::vector<double> w2=w; Matrix3d Rt=z.R;
    if(tr==0||tr==1)
    { nm=tr==0?"frame1":"frame2"; if(rig) continue; Matrix3d X=tr==0?Q:I,Y=tr==1?Q:I; if(s.name=="twopt"){ X=Y=Q; } for(auto&b:y.f1) b=X*b; for(auto&b:y.f2) b=Y*b; P2=X*P*Y.transpose(); t2=X*t; Rt=X*z.R*Y.transpose();
      f=[=](const MatrixXd&m){ return a.kind=='E'?mapE(m,X,Y):a.kind=='R'?MatrixXd(X*m*Y.transpose()):a.kind=='T'?MatrixXd(X*m):pose(X*rot(m)*Y.transpose(),X*tra(m)); }; Matrix3d Xi=X.transpose(),Yi=Y.transpose(); h=[=](const MatrixXd&m){ return a.kind=='E'?mapE(m,Xi,Yi):a.kind=='R'?MatrixXd(Xi*m*Yi.transpose()):a.kind=='T'?MatrixXd(Xi*m):pose(Xi*rot(m)*Yi.transpose(),Xi*tra(m)); }; }
    else if(tr==2)
    { nm="swap"; std::swap(y.f1,y.f2); std::swap(y.c1,y.c2); P2=P.transpose(); t2=-P2*t; Rt=z.R.transpose(); Matrix3d Z=z.R; f=[=](const MatrixXd&m){ return a.kind=='E'?transE(m):a.kind=='R'?MatrixXd(m.transpose()):a.kind=='T'?MatrixXd(-Z.transpose()*m):pose(rot(m).transpose(),-rot(m).transpose()*tra(m)); }; h=[=](const MatrixXd&m){ return a.kind=='E'?transE(m):a.kind=='R'?MatrixXd(m.transpose()):a.kind=='T'?MatrixXd(-Z*m):pose(rot(m).transpose(),-rot(m).transpose()*tra(m)); }; }
    else if(tr==3){ nm="order"; VI o=iota(n); g.shuffle(o); y=subScene(z,o); for(int j=0;j<n;j++) w2[j]=w[o[j]]; f=h=[](const MatrixXd&m){ return m; }; }
    else if(tr==4)
    { nm="rig-frame-and-scale"; if(!rig) continue; bool rigid=sv&&nz>0; k=rigid?1:wide(g,1.5,4); d=rigid?d:Vector3d(0.3*k*q.scale*g.nv()); for(auto&o:y.co) o=k*(Q*o)+d; for(auto&r:y.cr) r=Q*r; auto F=[=](const MatrixXd&m){ if(a.kind=='R') return MatrixXd(Q*m*Q.transpose()); Matrix3d W=Q*rot(m)*Q.transpose(); return pose(W,k*(Q*tra(m))+d-W*d); }; f=F; h=[=](const MatrixXd&m){ Matrix3d V=Q.transpose(); if(a.kind=='R') return MatrixXd(V*m*Q); Matrix3d W=V*rot(m)*Q; return pose(W,V*(tra(m)-d+rot(m)*d)/k); }; MatrixXd p=F(a.kind=='R'?MatrixXd(P):pose(P,t)); if(a.kind=='P'){ P2=rot(p); t2=tra(p); } else P2=p; Rt=Q*z.R*Q.transpose(); }
    else { nm="camera-frames"; if(!rig) continue; rotations_t C; for(size_t j=0;j<y.cr.size();j++){ C.push_back(g.rot()); y.cr[j]=y.cr[j]*C[j]; } for(int j=0;j<n;j++){ y.f1[j]=C[y.c1[j]].transpose()*y.f1[j]; y.f2[j]=C[y.c2[j]].transpose()*y.f2[j]; } f=h=[](const MatrixXd&m){ return m; }; }
    if((s.prior==2||s.name.find("eigensolver")==0)&&M_PI-angleOf(Rt)<0.5) continue;
    auto B=relAdapter(y,how,w2); prior(*B->a,P2,t2); Sol b=call(s,*B->a); 
    Keep ka,kb; if(s.name=="sixpt"){ ka=nearest(a,z.R); kb=nearest(b,Rt); }
    std::string key=s.name+":"+nm+(nz>0?"/noise":"/exact"); T tq=tolOf(s.name,key); compare(R,key,fl,a,b,f,h,q.scale,k*q.scale,dir,tq.tol,tq.q,ka,kb);
  }
}
static void triang(Reporter&R,Rng&g,int c,const std::string&fl)
{
  RelCase q; do q=makeRelFlavour(g,fl,1,0); while(vecAngle(q.s.f1[0],q.s.R*q.s.f2[0])<0.03); RelScene&z=q.s; double nz=c%2?pow(10,g.u(-6,-3)):0; noise(g,z.f1,nz); noise(g,z.f2,nz); R.ev(Reporter::hs(fl)+c,z.t[0]);
  for(int h=0;h<2;h++) for(int tr=0;tr<4;tr++)
  {
    if(h==0&&nz>0&&tr!=3) continue; Matrix3d Q=g.rot(); double k=pow(10,g.u(-3,3)); RelScene y=z; Vector3d e; auto P=[&](const RelScene&s){ auto A=relAdapter(s,0); prior(*A->a,s.R,s.t); return Vector3d(h?tri::triangulate2(*A->a,0):tri::triangulate(*A->a,0)); }; Vector3d p=P(z);
    if(tr==0){ y.f1[0]=Q*y.f1[0]; y.R=Q*z.R; y.t=Q*z.t; e=Q*p; k=1; } else if(tr==1){ y.f2[0]=Q*y.f2[0]; y.R=z.R*Q.transpose(); e=p; k=1; } else if(tr==2){ std::swap(y.f1,y.f2); y.R=z.R.transpose(); y.t=-y.R*z.t; e=z.R.transpose()*(p-z.t); k=1; } else { y.t=k*z.t; e=k*p; if(h==0&&nz>0) continue; }
    static const char*nm[]={"frame1","frame2","swap","scale"}; Vector3d r=P(y); R.err(std::string(h?"triangulate2:":"triangulate:")+nm[tr],fin(r)?(r-e).norm()/(e.norm()+k*z.t.norm()):INFINITY,1e-6,0.002,"%s: %s instead of %s",fl.c_str(),vs(r.transpose()).c_str(),vs(e.transpose()).c_str()); }
}
static void cloud(Reporter&R,Rng&g,int c,const PcSolver&s)
{
  double k0=pow(10,g.u(-2,2)); int n=g.i(4,30); Matrix3d Z=g.rotMax(2.0); Vector3d t=k0*g.box(3); points_t a(n),b(n); double nz=c%2?pow(10,g.u(-5,-2)):0; for(int k=0;k<n;k++){ b[k]=k0*g.box(4); a[k]=Z*b[k]+t+nz*k0*g.nv(); } Matrix3d P=Z*g.rotMax(0.02); Vector3d u=t+0.02*k0*g.nv(); R.ev(Reporter::hs(s.name)+c,t[0]); R.cov("calls "+s.name);
  pc::PointCloudAdapter A(a,b); prior(A,P,u); Sol x=call(s,A);
  for(int tr=0;tr<5;tr++)
  { points_t a2=a,b2=b; Matrix3d Q=g.rotMax(0.6),P2=P; Vector3d d=k0*g.box(3),u2=u; double k=1; Map f,h; const char*nm;
    if(tr==0){ nm="frame1"; for(auto&p:a2) p=Q*p+d; P2=Q*P; u2=Q*u+d; f=[=](const MatrixXd&m){ return pose(Q*rot(m),Q*tra(m)+d); }; h=[=](const MatrixXd&m){ Matrix3d V=Q.transpose(); return pose(V*rot(m),V*(tra(m)-d)); }; }
    else if(tr==1){ nm="frame2"; for(auto&p:b2) p=Q*p+d; P2=P*Q.transpose(); u2=u-P2*d; f=[=](const MatrixXd&m){ Matrix3d W=rot(m)*Q.transpose(); return pose(W,tra(m)-W*d); }; h=[=](const MatrixXd&m){ return pose(rot(m)*Q,tra(m)+rot(m)*d); }; }
    else if(tr==2){ nm="swap"; std::swap(a2,b2); P2=P.transpose(); u2=-P2*u; f=h=[](const MatrixXd&m){ return pose(rot(m).transpose(),-rot(m).transpose()*tra(m)); }; }
    else if(tr==3){ nm="scale"; k=wide(g,2,6); for(auto&p:a2) p*=k; for(auto&p:b2) p*=k; u2=k*u; f=[=](const MatrixXd&m){ return pose(rot(m),k*tra(m)); }; h=[=](const MatrixXd&m){ return pose(rot(m),tra(m)/k); }; }
    else { nm="order"; VI o=iota(n); g.shuffle(o); for(int j=0;j<n;j++){ a2[j]=a[o[j]]; b2[j]=b[o[j]]; } f=h=[](const MatrixXd&m){ return m; }; }
    if(s.prior==2&&M_PI-angleOf(P2)<0.3) continue;
    pc::PointCloudAdapter B(a2,b2); prior(B,P2,u2); Sol y=call(s,B); std::string key=s.name+":"+nm+(nz>0?"/noise":"/exact"); T tq=tolOf(s.name,key); compare(R,key,"",x,y,f,h,k0,k*k0,false,tq.tol,tq.q); }
}
// q: share of numerically lost solutions, a multiple of what the original algorithms lose; every other solver: none beyond 1e-6
static T tolOf(const std::string&n,const std::string&key)
{
  bool nz=key.find("noise")!=std::string::npos,fr=key.find(":world")!=std::string::npos||key.find(":body")!=std::string::npos; T r={1e-6,0};
  if(n=="fivept_kneip") r={1e-4,0.3}; else if(n=="gp3p") r={1e-3,fr?0.35:0.02}; else if(n=="p3p_gao"||n=="p3p_kneip") r={1e-5,0.01}; else if(n=="fivept_nister"||n=="fivept_stewenius") r={1e-5,0.003}; else if(n=="sixpt") r={0.03,0.05};
  else if(n.find("eigensolver")==0) r={nz?1e-3:1e-6,0.002}; else if(n=="upnp") r={fr&&nz?3e-2:1e-6,0.005}; else if(n.find("twopt")==0) r={1e-6,nz?0.005:0.0}; else if(n=="abs_nonlin") r={nz?1e-2:1e-3,0.01}; else if(n=="rel_nonlin") r={nz?5e-2:1e-2,0.01}; else if(n=="pc_nonlin") r={3e-3,0.003}; else if(n=="epnp"||n=="gpnp") r={1e-5,0.002};
  return r;
}
void monitor(Reporter&R)
{
  static const char*af[]={"std","front","near","shifted"}; static const char*rf[]={"std","near","bigrot","bigbase"};
  for(auto&s:absSolvers()) for(auto f:af) R.each(s.name+"/"+f,R.N(200,5000),[&](Rng&g,int c){ absolute(R,g,c,s,f); });
  for(auto&s:relSolvers()) { if(s.name.compare(0,2,"ge")==0||s.name.find("short")!=std::string::npos) continue; for(auto f:rf) R.each(s.name+"/"+f,R.N(s.name=="sixpt"?12:200,s.name=="sixpt"?300:5000),[&](Rng&g,int c){ relative(R,g,c,s,f); }); }
  for(auto f:rf) R.each(std::string("triangulation/")+f,R.N(500,10000),[&](Rng&g,int c){ triang(R,g,c,f); });
  for(auto&s:pcSolvers()) R.each(s.name,R.N(600,12000),[&](Rng&g,int c){ cloud(R,g,c,s); });
}
