#include "conic_common.hpp"
#include <yaml-cpp/yaml.h>
using namespace vfh; using namespace solver;

struct Prob { int n,l; std::vector<int> q; M A,G; V b,h,c; };


static Prob fromJson(const json& p)
{
  Prob P; P.n=p["n"]; P.l=p["l"]; P.q=p["q"].get<std::vector<int>>();
  P.A=mat(p["A"],P.n); P.G=mat(p["G"],P.n); P.b=vec(p["b"]); P.h=vec(p["h"]); P.c=vec(p["c"]);
  if (p.contains("rs") && bool(p["rs"]["on"])) {   // conditioning: rows of A, G (G rows of one cone alike) and the objective scaled
    const json& r=p["rs"];
    for (int i=0;i<P.A.rows();i++) { double k=std::ldexp(1.0,r["A"][i]); P.A.row(i)*=k; P.b[i]*=k; }
    for (int i=0;i<P.G.rows() && i<(int)r["G"].size();i++) { double k=std::ldexp(1.0,r["G"][i]); P.G.row(i)*=k; P.h[i]*=k; }
    P.c *= std::ldexp(1.0,r["c"]);
  }
  return P;
}
static Prob fromYaml(const std::string& file)
{
  Prob P; YAML::Node y=YAML::LoadFile(file.c_str()), d=y["problem_data"], z=y["problem_size"];
  P.n=z["nvars"].as<int>(); P.l=z["nlpc"].as<int>();
  for (auto v : z["qvec"]) P.q.push_back(v.as<int>());
  int p=z["nleq"].as<int>(), m=z["ncone"].as<int>();
  auto get=[&](const char* k){ V v(d[k].size()); for (size_t i=0;i<d[k].size();i++) v[i]=d[k][i].as<double>(); return v; };
  P.b=get("bvec"); P.h=get("hvec"); P.c=get("cvec"); P.A=M::Zero(p,P.n); P.G=M::Zero(m,P.n);
  V ac=get("Acol"), ar=get("Arow"), av=get("Aval"), gc=get("Gcol"), gr=get("Grow"), gv=get("Gval");
  for (int i=0;i<av.size();i++) P.A(int(ar[i]),int(ac[i]))+=av[i];
  for (int i=0;i<gv.size();i++) P.G(int(gr[i]),int(gc[i]))+=gv[i];
  return P;
}

static json solve(InteriorPointSolver& ip, SolverStorage& st, Cone& cone, SolverSetting& stg, const json& p)
{
  bool corpus=p.contains("yaml");
  Prob P = corpus ? fromYaml(p["yaml"]) : fromJson(p);
  Eigen::VectorXi q(P.q.size()); for (size_t i=0;i<P.q.size();i++) q[i]=P.q[i];
  cone.initialize(P.n, P.A.rows(), P.l, q);
  st.initialize(cone, stg); st.cleanCoeffs();
  for (int i=0;i<P.A.rows();i++) for (int j=0;j<P.n;j++) if (P.A(i,j)!=0) st.addCoeff(Eigen::Triplet<double>(i,j,P.A(i,j)), true);
  for (int i=0;i<P.G.rows();i++) for (int j=0;j<P.n;j++) if (P.G(i,j)!=0) st.addCoeff(Eigen::Triplet<double>(i,j,P.G(i,j)));
  st.b()=P.b; st.h()=P.h; st.c()=P.c;
  st.initializeMatrices();
  ip.initialize(st, cone, stg);
  ExitCode e=ip.optimize();
  const OptimizationVector& o=static_cast<const InteriorPointSolver&>(ip).optimalVector();
  V x=o.x(), y=o.y(), z=o.z(), s=o.s();
  V req=P.A*x-P.b, rin=P.G*x+s-P.h, rd=P.c+P.A.transpose()*y+P.G.transpose()*z, rinf=P.A.transpose()*y+P.G.transpose()*z;
  double u=1e8, cert=P.b.dot(y)+P.h.dot(z), cx=P.c.dot(x);
  double val = corpus ? 0.5*(cx-cert) : double(p["val"])*(bool(p["rs"]["on"]) ? std::ldexp(1.0,p["rs"]["c"]) : 1.0);
  // programs of the corpus are large: everything relative to the size of the data and of the result
  double rp=1, rq=1, ro=1, rx=1, rz=1;
  if (corpus) {
    rp=std::max(1.0,P.b.norm()+x.norm()); rq=std::max(1.0,P.h.norm()+x.norm()+s.norm());
    rx=std::max(1.0,P.c.norm()+y.norm()+z.norm()); ro=std::max(1.0,std::max(std::abs(cx),std::abs(cert)));
    rz=std::max(1.0,z.norm());
  }
  double dn=std::max(y.norm()+z.norm(),1e-300), xn=std::max(x.norm()+s.norm(),1e-300);   // certificates are rays
  return json{{"exit",exitName(e)}, {"x",corpus ? json::array() : nums(x,1e4)}, {"req",num(amax(req)/rp,u)}, {"rin",num(amax(rin)/rq,u)},
    {"scone",num(coneViolation(s,P.l,P.q)/rq,u)}, {"zcone",num(coneViolation(z,P.l,P.q)/rz,u)},
    {"rdual",num(amax(rd)/rx,u)}, {"gap",num(s.dot(z)/ro,u)}, {"objerr",num((cx-val)/ro,u)}, {"dualobj",num((-cert-val)/ro,u)},
    {"farkas",num(amax(rinf)/dn,u)}, {"farkassgn", cert<-1e-9*dn ? -1 : 1}, {"farkascone",num(coneViolation(z,P.l,P.q)/dn,u)},
    {"ray",num(nanmax(amax(P.A*x),amax(P.G*x+s))/xn,u)}, {"raysgn", cx<-1e-9*xn ? -1 : 1}, {"raycone",num(coneViolation(s,P.l,P.q)/xn,u)}};
}

int main(int argc, char** argv)
{
  std::string cfg=argv[1];
  return run(argc, argv, 60, [&](const json& sc) {
    SolverSetting stg; stg.initialize(cfg);
    if (sc.contains("equil")) stg.set(SolverIntParam_EquilibrationIters, int(sc["equil"]));
    if (sc.contains("iters")) stg.set(SolverIntParam_SolverMaxIters, int(sc["iters"]));
    InteriorPointSolver ip; SolverStorage st; Cone cone;
    for (size_t i=0;i<sc["progs"].size();i++) {
      json r=solve(ip, st, cone, stg, sc["progs"][i]); r["event"]="solve"; r["i"]=i; emit(r);
    }
  });
}
