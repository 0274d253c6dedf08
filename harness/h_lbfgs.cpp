// Runs the L-BFGS minimiser on objectives described by scenarios and records every callback.
#include <map>
#include <cstring>
#include "vfh.hpp"
#include <solver/optimizer/LbfgsSolver.hpp>
using namespace vfh; using namespace solver;
typedef Eigen::VectorXd V;

static const std::map<int,std::string> NAMES = {
  {LBFGS_SUCCESS,"SUCCESS"},{LBFGS_STOP,"STOP"},{LBFGS_ALREADY_MINIMIZED,"ALREADY"},
  {LBFGSERR_INVALID_N,"INVALID_N"},{LBFGSERR_INVALID_EPSILON,"INVALID_EPSILON"},{LBFGSERR_INVALID_TESTPERIOD,"INVALID_TESTPERIOD"},
  {LBFGSERR_INVALID_DELTA,"INVALID_DELTA"},{LBFGSERR_INVALID_LINESEARCH,"INVALID_LINESEARCH"},{LBFGSERR_INVALID_MINSTEP,"INVALID_MINSTEP"},
  {LBFGSERR_INVALID_MAXSTEP,"INVALID_MAXSTEP"},{LBFGSERR_INVALID_FTOL,"INVALID_FTOL"},{LBFGSERR_INVALID_WOLFE,"INVALID_WOLFE"},
  {LBFGSERR_INVALID_GTOL,"INVALID_GTOL"},{LBFGSERR_INVALID_XTOL,"INVALID_XTOL"},{LBFGSERR_INVALID_MAXLINESEARCH,"INVALID_MAXLINESEARCH"},
  {LBFGSERR_OUTOFINTERVAL,"OUTOFINTERVAL"},{LBFGSERR_INCORRECT_TMINMAX,"INCORRECT_TMINMAX"},{LBFGSERR_ROUNDING_ERROR,"ROUNDING_ERROR"},
  {LBFGSERR_MINIMUMSTEP,"MINIMUMSTEP"},{LBFGSERR_MAXIMUMSTEP,"MAXIMUMSTEP"},{LBFGSERR_MAXIMUMLINESEARCH,"MAXIMUMLINESEARCH"},
  {LBFGSERR_MAXIMUMITERATION,"MAXIMUMITERATION"},{LBFGSERR_WIDTHTOOSMALL,"WIDTHTOOSMALL"},{LBFGSERR_INVALIDPARAMETERS,"INVALIDPARAMETERS"},
  {LBFGSERR_INCREASEGRADIENT,"INCREASEGRADIENT"},{LBFGSERR_UNKNOWNERROR,"UNKNOWNERROR"},{LBFGSERR_OUTOFMEMORY,"OUTOFMEMORY"},{LBFGSERR_LOGICERROR,"LOGICERROR"}};

static unsigned long long hashv(const double* x, int n, unsigned long long s)
{
  for (int i=0;i<n;i++) { unsigned long long u; std::memcpy(&u,&x[i],8); s^=u; s*=1099511628211ULL; s^=s>>29; }
  return s;
}
// objective families; terms are rows {c, b, a[]} meaning u = a.x + b
static double objective(const json& o, const V& x, V& g)
{
  std::string kind=o["kind"]; double f=0; g.setZero(x.size());
  for (auto& t : o["terms"]) {
    double c=t["c"], u=t["b"]; V a(x.size()); for (int i=0;i<x.size();i++) { a[i]=t["a"][i]; u+=a[i]*x[i]; }
    double v=0,d=0;
    if (kind=="quad" || kind=="step") { v=u*u/2; d=u; }
    else if (kind=="quartic") { v=u*u*u*u/4+u*u/8; d=u*u*u+u/4; }
    else if (kind=="wave") { v=std::cos(u)+0.05*u*u; d=-std::sin(u)+0.1*u; }
    else if (kind=="abs") { v=std::abs(u); d=u>0?1:-1; }
    else if (kind=="hinge") { double h=std::max(0.0,u); v=h*h-0.25*u+std::max(0.0,-u-8)*std::max(0.0,-u-8); d=2*h-0.25-2*std::max(0.0,-u-8); }
    else if (kind=="linear") { v=u; d=1; }
    else if (kind=="logcosh") { v=std::abs(u)+std::log1p(std::exp(-2*std::abs(u))); d=std::tanh(u); }
    else if (kind=="chaos") { unsigned long long h=hashv(x.data(),x.size(),1469598103934665603ULL+(long long)(u*0)); v=double(h%7)-3; d=double((h>>8)%5)-2; }
    else throw std::runtime_error("objective "+kind);
    f+=c*v; g+=c*d*a;
  }
  if (kind=="step") for (int i=0;i<x.size();i++) f+=0.5*std::floor(2*x[i])*(i%2?1:-1);
  double s=std::pow(2.0,double(o["scale"]));
  f=s*(f+double(o["offset"])); g*=s;
  return f;
}

struct Pt { int id; V x, g; double f; };
struct Rec {
  json o; lbfgs_parameter_t p; int n; int stopat, stopcode;
  std::map<std::string,int> ids; std::vector<Pt> pts; std::vector<json> ev; int base=-1, last=-1, lastcount=0, k=0;
  std::vector<double> hist; int evals=0; double laststep=0;
  std::string key(const double* x) { std::string s((const char*)x, n*sizeof(double)); return s; }
  int find(const double* x) { auto it=ids.find(key(x)); return it==ids.end()?0:it->second; }
};
static int tri(double margin, double tol) { if (std::isnan(margin)) return 0; return margin>tol?1:(margin<-tol?-1:0); }

static double evalcb(void* inst, const double* x, double* g, const int n, const double step)
{
  Rec& r=*(Rec*)inst; V vx=Eigen::Map<const V>(x,n), vg; double f=objective(r.o,vx,vg);
  if (++r.evals>20000) throw std::runtime_error("too many evaluations");
  for (int i=0;i<n;i++) g[i]=vg[i];
  int id=r.find(x);
  if (!id) { id=r.pts.size()+1; r.ids[r.key(x)]=id; r.pts.push_back({id,vx,vg,f}); }
  json e{{"e","eval"},{"pt",id},{"f",f}};
  double lhs=vg.norm(), rhs=r.p.epsilon*std::max(1.0,vx.norm());
  e["gc"]= lhs==0 ? 1 : tri(rhs-lhs, 1e-9*lhs);
  if (r.base>=0) {
    const Pt& b=r.pts[r.base]; V d=vx-b.x; double dg0=b.g.dot(d), dg1=vg.dot(d);
    double tol=1e-9*(std::abs(dg0)+std::abs(dg1))+4e-16*(b.g.norm()+vg.norm())*(vx.norm()+b.x.norm());
    e["arm"]=tri(b.f+r.p.ftol*dg0-f, 1e-10*(std::abs(r.p.ftol*dg0))+4e-16*(std::abs(f)+std::abs(b.f))+r.p.ftol*tol);
    e["cw"]=tri(dg1-r.p.wolfe*dg0, tol); e["cs"]=tri(r.p.wolfe*std::abs(dg0)-std::abs(dg1), tol); e["cg"]=tri(r.p.gtol*std::abs(dg0)-std::abs(dg1), tol);
    if (f==b.f+r.p.ftol*dg0) e["arm"]=0;
    e["smin"]=step<=r.p.min_step; e["smax"]=step>=r.p.max_step;
    r.lastcount++;
  } else { r.base=id-1; r.hist.push_back(f); }
  r.last=id-1; r.laststep=step;
  r.ev.push_back(e);
  return f;
}
static bool rel(double a, double b) { return std::abs(a-b)<=1e-9*std::max(std::abs(a),std::abs(b)); }
static int progcb(void* inst, const double* x, const double* g, const double fx, const double xnorm, const double gnorm, const double step, int n, int k, int ls)
{
  Rec& r=*(Rec*)inst; int id=r.find(x); V vx=Eigen::Map<const V>(x,n), vg=Eigen::Map<const V>(g,n);
  bool ag=id>0 && rel(xnorm,vx.norm()) && rel(gnorm,vg.norm()) && vg==r.pts[id-1].g && step==r.laststep;
  r.k++;
  int ret = r.stopat==r.k ? r.stopcode : 0;
  int past=r.p.past, t=0;
  if (past>0 && past<=r.k) { double rate=(r.hist[r.k-past]-fx)/fx; t=std::isfinite(rate)?tri(r.p.delta-rate,1e-10*std::abs(rate)+1e-15):0; }
  r.hist.push_back(fx);
  r.ev.push_back(json{{"e","progress"},{"pt",id},{"f",fx},{"k",k},{"n",ls},{"agrees",ag},{"rate",t},{"ret",ret?"USER":""}});
  r.base=id-1; r.lastcount=0;
  return ret;
}

// ranks instead of values
static void rankify(std::vector<json>& ev)
{
  std::map<double,int> rk; for (auto& e : ev) if (!std::isnan(e["f"].get<double>())) rk[e["f"]]=0;
  int i=0; for (auto& k : rk) k.second=++i;
  for (auto& e : ev) { double f=e["f"]; e["f"]=std::isnan(f)?-1:rk[f]; }
}

// ---- the penalty wrapper around a nonlinear program -------------------------------
struct Nlp : NlpDescription {
  json o; int n, m; V x0, xl, xu, gl, gu; 
  void getNlpParameters(int& a, int& b) { a=n; b=m; }
  void getNlpBounds(int, int, double* a, double* b, double* c, double* d)
  { for (int i=0;i<n;i++) { a[i]=xl[i]; b[i]=xu[i]; } for (int i=0;i<m;i++) { c[i]=gl[i]; d[i]=gu[i]; } }
  void getStartingPoint(int, double* x) { for (int i=0;i<n;i++) x[i]=x0[i]; }
  double evaluateObjective(int, const double* x) { V g; return objective(o, Eigen::Map<const V>(x,n), g); }
  void evaluateConstraintsVector(int, int, const double* x, double* c)
  { for (int i=0;i<m;i++) { c[i]=0; for (int k=0;k<n;k++) c[i]+=double(o["cons"][i][k])*x[k]; c[i]+=0.1*x[i%n]*x[(i+1)%n]; } }
  double total(const V& x, double w)
  { double f=evaluateObjective(n,x.data()), s=0; V c(m); evaluateConstraintsVector(n,m,x.data(),c.data());
    for (int i=0;i<n;i++) s+=std::pow(std::max(0.0,xl[i]-x[i]),2)+std::pow(std::max(0.0,x[i]-xu[i]),2);
    for (int i=0;i<m;i++) s+=std::pow(std::max(0.0,gl[i]-c[i]),2)+std::pow(std::max(0.0,c[i]-gu[i]),2);
    return f+w*s; }
};
static V vec(const json& j) { V v(j.size()); for (size_t i=0;i<j.size();i++) v[i]=j[i].get<double>(); return v; }

int main(int argc, char** argv)
{
  return run(argc, argv, 30, [&](const json& sc) {
    if (sc.contains("nlp")) {
      Nlp p; p.o=sc["obj"]; p.n=sc["n"]; p.o["cons"]=sc["cons"]; p.m=sc["cons"].size(); p.x0=vec(sc["x"])/4;
      p.xl=vec(sc["xl"]); p.xu=vec(sc["xu"]); p.gl=vec(sc["gl"]); p.gu=vec(sc["gu"]); double w=sc["w"];
      LbfgsSolver s; s.initialize(&p, w); s.opt_params().linesearch=sc["ls"]; s.opt_params().max_iterations=500;
      json ev=json::array();
      for (int rep=0; rep<int(sc["nlp"]); rep++) {
        s.optimize();
        V x=p.optimalVector(); double f=p.total(x,w), f0=p.total(p.x0,w), val=p.optimalValue(), e=std::max(1.0,std::abs(f));
        V g(p.n); for (int i=0;i<p.n;i++) { V a=x,b=x; a[i]+=1e-6; b[i]-=1e-6; g[i]=(p.total(a,w)-p.total(b,w))/2e-6; }
        emit(json{{"event","nlp"},{"ls",sc["ls"]},{"size",x.size()==p.n},{"value",num((val-f)/e,1e8)},{"gain",num((f0-val)/std::max(1.0,std::abs(f0)),1e8)},{"grad",num(g.norm()/std::max(1.0,x.norm())/(1+w),1e5)}});
      }
      return;
    }
    Rec r; r.o=sc["obj"]; r.n=sc["n"]; r.stopat=sc["stopat"]; r.stopcode=sc["stopcode"];
    lbfgs_parameter_init(&r.p); const json& p=sc["set"];
    r.p.m=p["m"]; r.p.epsilon=p["epsilon"]; r.p.past=p["past"]; r.p.delta=p["delta"]; r.p.max_iterations=p["maxit"]; r.p.linesearch=p["ls"];
    r.p.max_linesearch=p["maxls"]; r.p.min_step=p["minstep"]; r.p.max_step=p["maxstep"]; r.p.ftol=p["ftol"]; r.p.wolfe=p["wolfe"]; r.p.gtol=p["gtol"]; r.p.xtol=p["xtol"];
    V x=vec(sc["x"])/4; V x0=x, g; double f0=objective(r.o,x,g); double fx=-12345.5;
    r.ids[r.key(x.data())]=1; r.pts.push_back({1,x,g,f0});
    bool prog=sc["prog"];
    std::vector<double> guard(r.n+8, 7.5); for (int i=0;i<r.n;i++) guard[i]=x[i];
    int code;
    try { code=lbfgs(sc["nn"], guard.data(), sc["ptr"].get<bool>()?&fx:nullptr, evalcb, prog?progcb:nullptr, &r, &r.p); }
    catch (const std::runtime_error& e) { emit(json{{"event","endless"},{"what",e.what()}}); return; }
    bool intact=true; for (int i=r.n;i<r.n+8;i++) intact &= guard[i]==7.5;
    int id=r.find(guard.data()); std::string nm= code==r.stopcode && r.stopat==r.k && r.k>0 ? "USER" : NAMES.count(code)?NAMES.at(code):std::to_string(code);
    double f = id ? r.pts[id-1].f : NAN;
    bool valid = r.evals>0;
    json ret{{"e","return"},{"code",nm},{"pt",id},{"f", valid ? (sc["ptr"].get<bool>() ? fx : f) : f0}};
    if (valid) ret["f0"]=0;
    r.ev.push_back(ret);
    rankify(r.ev);
    emit(json{{"event","run"},{"ev",r.ev},{"intact",intact},{"untouched",fx==-12345.5},{"valid",valid},{"evals",r.evals}});
  });
}
