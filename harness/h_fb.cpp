// C22: the feedback law computed around given centroidal plans.
#include "lqr_log.hpp"
#include <yaml_utils/yaml_eigen.hpp>
#include <momentumopt/dynopt/DynamicsFeedback.hpp>
using namespace solverlqr;
using namespace momentumopt;
static const char* names[7] = {"control_cost","com_tracking","lmom_tracking","amom_tracking","com_final_tracking","lmom_final_tracking","amom_final_tracking"};
static Eigen::Vector3d v3(const json& a) { return Eigen::Vector3d(a[0].get<int>()/100., a[1].get<int>()/100., a[2].get<int>()/100.); }
static std::string config(const json& s)
{
  YAML::Node root = YAML::LoadFile(std::string(VF_DIR) + "/planner.yaml"), pv = root["planner_variables"];
  pv["n_act_eefs"] = std::to_string(s["neff"].get<int>()); pv["gravity"] = dec(s["grav"].get<int>()/100.); pv["robot_mass"] = dec(s["mass"].get<int>()/100.);
  const json& g = s["set"]; double T = s["T"].get<int>();
  auto e2 = [](int e) { return dec(e == -9999 ? 0.0 : std::ldexp(1.0, e)); };
  std::string path = dir + "/fb.yaml"; root.remove("solverlqr_dynamics"); std::ofstream o(path); o << root;
  o << "\nsolverlqr_dynamics:\n  verbosity: 3\n  decimal_digits: 9\n  bpass_regularization_type: 2\n  lqr_max_iters: 1\n  linesearch_coeff: 2.0\n  linesearch_num_coeffs: 5\n  cost_change_tolerance: 1e-9\n  control_gradient_tolerance: 1e-9\n"
    << "  divergence_limit_check: 1000000\n  min_expected_cost_improvement: 0.2\n  bpass_min_regularization: " << e2(g["min"]) << "\n  bpass_max_regularization: " << e2(10) << "\n  bpass_initial_regularization: " << e2(g["ini"])
    << "\n  bpass_mult_regularization_incr: 2.0\n  bpass_initial_mult_regularization_incr: 1.0\n  time_step: 0.1\n  time_horizon: " << dec(.1*T) << "\n  state_dimension: 9\n  control_dimension: " << 3*s["neff"].get<int>()
    << "\n  initial_state: [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]\n  has_control_limits: false\n  store_data: false\n  user_parameters:\n";
  for (int k=0; k<7; k++) o << "    " << names[k] << ": " << list(s["w"][k], .01) << "\n";
  return path;
}
static void body(const json& s)
{
  json out{{"event","fb"},{"runs",json::array()}};
  PlannerSetting plan; SolverLqrSetting lqr; DynamicsFeedbackWrapper fb;
  std::string path = config(s); plan.initialize(path); lqr.initialize(path, "solverlqr_dynamics");
  fb.initialize(lqr, plan);
  std::vector<DynamicsSequence> seqs(s["runs"].size()); int n = 0;      // plans outlive the controller's use of them
  for (auto& run : s["runs"]) {
    DynamicsSequence& d = seqs[n++]; d.resize(run["plan"].size()); int t = 0;
    for (auto& x : run["plan"]) {
      DynamicsState& y = d.dynamicsState(t++);
      y.time() = x["dt"].get<int>()/1000.; y.centerOfMass() = v3(x["com"]); y.linearMomentum() = v3(x["l"]); y.angularMomentum() = v3(x["a"]);
      for (int f=0; f<4; f++) { y.endeffectorActivation(f) = x["feet"][f]["act"].get<bool>(); y.endeffectorPosition(f) = v3(x["feet"][f]["p"]); y.endeffectorForce(f) = v3(x["feet"][f]["f"]); }
    }
    DynamicsState ini; ini.centerOfMass() = v3(run["ini"]["com"]); ini.linearMomentum() = v3(run["ini"]["l"]); ini.angularMomentum() = v3(run["ini"]["a"]);
    json r; r["threw"] = false;
    Capture c;
    try { fb.optimize(ini, d); } catch (const std::exception& e) { r["threw"] = true; r["what"] = e.what(); }
    r["log"] = events(c.end());
    r["K"] = json::array(); for (int k=-2; k<s["T"].get<int>()+3; k++) r["K"].push_back(mat(fb.forceGain(k)));
    out["runs"].push_back(r);
  }
  unlink(path.c_str());
  emit(out);
}
int main(int argc, char** argv)
{
  char t[] = "/tmp/vf_fb_XXXXXX"; if (!mkdtemp(t)) return 2; dir = t;
  int rc = run(argc, argv, 30, body);
  unlink((dir + "/fb.yaml").c_str()); unlink((dir + "/log").c_str()); rmdir(dir.c_str());
  return rc;
}
