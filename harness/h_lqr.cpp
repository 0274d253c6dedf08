// C14, C15: the iterative LQR solver on generated polynomial problems; what it printed, returned, wrote to a file and
// the derivatives it works with.
#include "lqr_log.hpp"
#include <yaml_utils/yaml_eigen.hpp>
#include <solver_lqr/SolverLqr.hpp>
using namespace solverlqr;

struct Poly : public OcpBase {
  json p; bool used = false; int nx, nu;
  void configure(const YAML::Node& u) { used = u["mark"].as<int>() == p["mark"].get<int>(); }
  Eigen::VectorXd z(const StateBase& x, const ControlBase& u) { Eigen::VectorXd v(nx+nu); v << x.stateVector(), u.feedforward(); return v; }
  StateBase dynamics(const StateBase& x, const ControlBase& u, int t)
  {
    StateBase d(nx); Eigen::VectorXd v = z(x, u); const json& m = p["dyn"][t];
    for (int i=0; i<nx; i++) {
      double s = m["c"][i].get<int>();
      for (int j=0; j<nx+nu; j++) s += m["A"][i][j].get<int>()*v[j];
      d.stateVector()[i] = s/100.;
    }
    for (auto& q : m["n"]) d.stateVector()[q["i"].get<int>()-1] += q["k"].get<int>()/100.*v[q["p"].get<int>()-1]*v[q["q"].get<int>()-1];
    return d;
  }
  double objective(const StateBase& x, const ControlBase& u, int t, bool last)
  {
    Eigen::VectorXd v = z(x, u); int T = p["T"];
    const json& m = last ? p["end"] : p["cost"][std::min(t, T-1)];
    int n = last ? nx : nx+nu; double s = 0;
    if (last != (t == T)) return 1e6;
    for (int i=0; i<n; i++) {
      s += m["w"][i].get<int>()*v[i];
      for (int j=0; j<n; j++) s += m["W"][i][j].get<int>()*v[i]*v[j];
      s += m["f"][i].get<int>()*std::pow(v[i], 4);
    }
    return s/100.;
  }
};
static std::string settings(const json& p, int k)
{
  const json& g = p["set"]; std::string path = dir + "/lqr" + std::to_string(k) + ".yaml"; std::ofstream o(path);
  auto e2 = [](int e) { return dec(e == -9999 ? 0.0 : std::ldexp(1.0, e)); };
  o << "other:\n  verbosity: 0\nlqr_section:\n  verbosity: 3\n  decimal_digits: 9\n  bpass_regularization_type: 2\n  lqr_max_iters: " << g["iters"] << "\n  linesearch_coeff: 2.0\n  linesearch_num_coeffs: " << g["alphas"]
    << "\n  cost_change_tolerance: 1e-" << g["tolc"] << "\n  control_gradient_tolerance: 1e-" << g["tolg"] << "\n  divergence_limit_check: " << g["diverge"] << "\n  min_expected_cost_improvement: 0.2"
    << "\n  bpass_min_regularization: " << e2(g["min"]) << "\n  bpass_max_regularization: " << e2(g["max"]) << "\n  bpass_initial_regularization: " << e2(g["ini"])
    << "\n  bpass_mult_regularization_incr: " << e2(g["inc"]) << "\n  bpass_initial_mult_regularization_incr: " << e2(g["mul"])
    << "\n  time_step: " << dec(g["dt"].get<int>()/1000.) << "\n  time_horizon: " << dec(g["dt"].get<int>()*p["T"].get<int>()/1000.) << "\n  state_dimension: " << p["nx"] << "\n  control_dimension: " << p["nu"]
    << "\n  initial_state: " << list(p["x0"], .01) << "\n  has_control_limits: " << (g["lim"].get<bool>() ? "true" : "false")
    << "\n  min_control_limits: " << list(g["lo"], .01) << "\n  max_control_limits: " << list(g["hi"], .01)
    << "\n  store_data: " << (g["store"].get<bool>() ? "true" : "false") << "\n  user_parameters:\n    mark: " << p["mark"] << "\n";
  return path;
}
static json trajectory(const OcpBase& o)
{
  json r{{"x",json::array()},{"u",json::array()},{"K",json::array()},{"nx",o.stateSeq().size()},{"nu",o.controlSeq().size()}};
  for (int t=0; t<o.stateSeq().size(); t++) r["x"].push_back(nums(o.stateSeq().state(t).stateVector(), S));
  for (int t=0; t<o.controlSeq().size(); t++) { r["u"].push_back(nums(o.controlSeq().control(t).feedforward(), S)); r["K"].push_back(mat(o.controlSeq().control(t).feedback())); }
  return r;
}
static json derivatives(Poly& o, int T)
{
  FiniteDifferences d; d.initialize(&o, true, true, true, true); d.computeDerivatives();
  json r{{"t",json::array()}};
  for (int t=0; t<=T; t++) {
    json e{{"cx",nums(d.cx(t),S)},{"cu",nums(d.cu(t),S)},{"cxx",mat(d.cxx(t))},{"cxu",mat(d.cxu(t))},{"cuu",mat(d.cuu(t))}};
    if (t < T) {
      e["fx"] = mat(d.fx(t)); e["fu"] = mat(d.fu(t)); e["fxx"] = json::array(); e["fxu"] = json::array(); e["fuu"] = json::array();
      for (auto& m : d.fxx(t)) e["fxx"].push_back(mat(m));
      for (auto& m : d.fxu(t)) e["fxu"].push_back(mat(m));
      for (auto& m : d.fuu(t)) e["fuu"].push_back(mat(m));
    }
    r["t"].push_back(e);
  }
  return r;
}
static json stored(const std::string& path, int T)
{
  YAML::Node y = YAML::LoadFile(path)["solverlqr_variables"]; json r{{"K",json::array()}};
  Eigen::MatrixXd x = y["states"].as<Eigen::MatrixXd>(), u = y["control_ff"].as<Eigen::MatrixXd>();
  r["x"] = mat(x.transpose()); r["u"] = mat(u.transpose());
  r["dim"] = {y["tdim"].as<int>(), y["xdim"].as<int>(), y["udim"].as<int>()};
  for (int t=0; t<T; t++) r["K"].push_back(mat(y["control_fb_"+std::to_string(t)].as<Eigen::MatrixXd>()));
  return r;
}
static void body(const json& s)
{
  json out{{"event","lqr"},{"runs",json::array()}};
  SolverLqr solver; std::vector<Poly> ocp(s["probs"].size()); std::vector<SolverLqrSetting> set(s["probs"].size());
  for (auto& run : s["runs"]) {
    int k = run["p"].get<int>()-1; const json& p = s["probs"][k]; Poly& o = ocp[k]; int T = p["T"];
    json r; r["threw"] = false; std::string log;
    try {
      if (run["init"].get<bool>()) {
        std::string path = settings(p, k);
        set[k].initialize(path, "lqr_section"); set[k].get(SolverLqrBoolParam_UseRungeKuttaIntegration) = p["rk"].get<bool>();
        o.p = p; o.nx = p["nx"]; o.nu = p["nu"]; o.initialize(set[k]);
        o.stateSeq().state(0).stateVector() = set[k].get(SolverLqrVectorParam_InitialState);
        for (int t=0; t<T; t++) for (int i=0; i<o.nu; i++) o.controlSeq().control(t).feedforward()[i] = p["u0"][t][i].get<int>()/100.;
        solver.initialize(&o, set[k]);
      }
      r["dims"] = {o.tdim(), o.xdim(), o.udim()}; r["used"] = o.used;
      Capture c;
      try { solver.optimize(); } catch (...) { c.end(); throw; }
      log = c.end();
      r["t"] = trajectory(o); r["log"] = events(log); r["d"] = derivatives(o, T);
      if (p["set"]["store"].get<bool>()) {
        std::string f = set[k].get(SolverLqrStringParam_SaveLqrFile); bool there = access(f.c_str(), R_OK) == 0;
        if (there) {
          r["file"] = stored(f, T);
          Poly q; q.p = p; q.nx = p["nx"]; q.nu = p["nu"]; q.initialize(set[k]); SolverLqr l; l.initialize(&q, set[k]); l.loadSolution(f);
          r["loaded"] = trajectory(q)["K"]; unlink(f.c_str());
        } else r["file"] = json{{"K",json::array()}};
      }
    } catch (const std::exception& e) { r["threw"] = true; r["what"] = e.what(); }
    out["runs"].push_back(r);
    if (r["threw"].get<bool>()) break;
  }
  emit(out);
}
int main(int argc, char** argv)
{
  char t[] = "/tmp/vf_lqr_XXXXXX"; if (!mkdtemp(t)) return 2; dir = t;
  int rc = run(argc, argv, 30, body);
  for (const char* f : {"/lqr0.yaml", "/lqr1.yaml", "/log", "/lqr0_lqr_results.yaml", "/lqr1_lqr_results.yaml"}) unlink((dir + f).c_str());
  rmdir(dir.c_str());
  return rc;
}
