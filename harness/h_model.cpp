#include "model_common.hpp"
using namespace vfh; using namespace solver;

struct Session {
  Model& m; Vars v; std::vector<json> cons; json obj; std::vector<json> evals; bool quiet=false;
  std::vector<double> xs() { std::vector<double> x; for (auto& w : v) x.push_back(w.get(SolverDoubleParam_X)); return x; }
  void say(json r) { if (!quiet) emit(r); }
  void evaluate(const json& t)
  {
    LinExpr e=build(t,v); auto x=xs();
    // evaluation through the expression, through a copy of it, and as the single term of a quadratic
    LinExpr c=e; DCPQuadExpr q; q.addQuaTerm(2.0, e); q.addQuaTerm(1.0, c);
    say(json{{"event","eval"},{"t",t},{"x",x.size()?nums(Eigen::Map<V>(x.data(),x.size()),1e4):json::array()},
             {"v",num(e.getValue(),1e4)},{"sqerr",num(q.getValue()-3*value(t,x)*value(t,x),1e4)}});
  }
  void op(const json& o)
  {
    std::string k=o["op"];
    if (k=="var") {
      Var x=m.addVar(o["type"]=="b" ? VarType::Binary : VarType::Continuous, o["lb"], o["ub"], o["guess"]); v.push_back(x);
      say(json{{"event","var"},{"lb",num(x.get(SolverDoubleParam_LB),1)},{"ub",num(x.get(SolverDoubleParam_UB),1)},
               {"guess",num(x.get(SolverDoubleParam_Guess),1)},{"x",num(x.get(SolverDoubleParam_X),1)},{"o",o}});
    } else if (k=="eval") { evals.push_back(o["lhs"]); evaluate(o["lhs"]); }
    else if (k=="lin")  { m.addLinConstr(build(o["lhs"],v), o["s"], build(o["rhs"],v)); cons.push_back(o); }
    else if (k=="quad") { m.addQuaConstr(dcp(o,v), "<", build(o["rhs"],v)); cons.push_back(o); }
    else if (k=="soc")  { m.addSocConstr(dcp(o,v), "<", build(o["rhs"],v)); cons.push_back(o); }
    else if (k=="obj")  { m.setObjective(dcp(o,v), build(o["rhs"],v)); obj=o; }
    else if (k=="optimize") {
      ExitCode e=m.optimize(); auto x=xs();
      json viol=json::array(); for (auto& c : cons) viol.push_back(num(measure(c,x),1e6));
      json r{{"event","optimize"},{"exit",exitName(e)},{"x",nums(Eigen::Map<V>(x.data(),x.size()),1e4)},{"viol",viol},
        {"objerr",num(measure(obj,x)-double(o["val"]),1e6)},{"o",o}};
      json lin=json::array(); for (auto& c : cons) if (c["op"]=="lin") lin.push_back(c);
      r["lin"]=lin; say(r);
      if (e==ExitCode::Optimal) for (auto& t : evals) evaluate(t);
    }
  }
};

int main(int argc, char** argv)
{
  std::string cfg=argv[1];
  return run(argc, argv, 60, [&](const json& sc) {
    Model m; m.configSetting(cfg);
    if (sc.contains("equil")) m.getSetting().set(SolverIntParam_EquilibrationIters, int(sc["equil"]));
    if (sc.contains("bnbiters")) m.getSetting().set(SolverIntParam_BnBMaxIters, int(sc["bnbiters"]));
    if (int(sc["reuse"])==1) {    // the model object is used for another program first and cleaned
      Session s{m}; s.quiet=true;
      for (auto& o : sc["ops"]) { s.op(o); if (o["op"]=="optimize") break; }
      m.clean();
    }
    Session s{m};
    for (auto& o : sc["ops"]) s.op(o);
  });
}
