// C12, C13, C22: centroidal plans computed for generated contact schedules, and the feedback law around them.
// Quantities go in and come out divided by mass and gravity where they contain a force.
#include "vfh.hpp"
#include <cstdio>
#include <unistd.h>
#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
#include <momentumopt/dynopt/DynamicsOptimizer.hpp>
using namespace vfh;
using namespace momentumopt;
static std::string dir;
static const char* eff[4] = {"rf","lf","rh","lh"};
static std::string dec(double v) { char b[64]; std::snprintf(b, 64, "%.15g", v); std::string r = b; return r.find_first_of(".en") == std::string::npos ? r + ".0" : r; }
static YAML::Node list(const std::vector<double>& v) { YAML::Node n(YAML::NodeType::Sequence); for (double x : v) n.push_back(dec(x)); n.SetStyle(YAML::EmitterStyle::Flow); return n; }
static std::vector<double> vals(const json& a, double unit) { std::vector<double> v; for (auto& x : a) v.push_back(x.get<int>()*unit); return v; }
static void app(std::vector<double>& v, const std::vector<double>& w) { v.insert(v.end(), w.begin(), w.end()); }
static std::vector<double> unitq(const json& q) { double n = 0; for (auto& x : q) n += double(x.get<int>())*x.get<int>(); return vals(q, 1/std::sqrt(n)); }
static Eigen::Vector3d v3(const json& a, double unit) { return Eigen::Vector3d(a[0].get<int>()*unit, a[1].get<int>()*unit, a[2].get<int>()*unit); }

static void base(const json& s, YAML::Node& root, double mg)
{
  YAML::Node pv = root["planner_variables"];
  double dt = s["dt"].get<int>()/1000.;
  pv["time_step"] = dec(dt); pv["time_horizon"] = dec(s["dt"].get<int>()*s["n"].get<int>()/1000.);
  pv["load_kinematics"] = "true"; pv["store_data"] = s["store"].get<bool>() ? "true" : "false"; pv["use_default_solver_setting"] = "false";
  pv["heuristic"] = s["heur"].get<std::string>(); pv["n_act_eefs"] = std::to_string(s["neff"].get<int>());
  pv["friction_cone"] = s["cone"].get<std::string>(); pv["friction_coeff"] = dec(s["mu"].get<int>()/100.);
  pv["gravity"] = dec(s["grav"].get<int>()/100.); pv["robot_mass"] = dec(s["mass"].get<int>()/10.);
  pv["min_rel_height"] = dec(s["minh"].get<int>()/100.);
  pv["external_force"] = list(vals(s["ext"], 1/100.)); pv["com_displacement"] = list(vals(s["motion"], 1/100.));
  pv["torque_range"] = list(vals(s["trq"], mg/1000.));
  pv["time_range"] = list(vals(s["trange"], 1/1000.)); pv["is_time_horizon_fixed"] = s["fixed"].get<bool>() ? "true" : "false";
  std::vector<double> ml; for (int f=0; f<4; f++) {
    const json& x = s["feet"][f];
    pv[std::string("eff_offset_")+eff[f]] = list(vals(x["off"], 1/100.));
    pv[std::string("cop_range_")+eff[f]] = list(vals(x["cop"], 1/1000.));
    ml.push_back(x["len"].get<int>()/100.);
  }
  pv["max_eef_lengths"] = list(ml);
  for (auto it = s["w"].begin(); it != s["w"].end(); ++it)
    if (it.value().is_array()) pv[it.key()] = list(vals(it.value(), 1/1000.)); else pv[it.key()] = dec(it.value().get<int>()/1000.);
  pv["max_time_iterations"] = std::to_string(s["tmax"][0].get<int>()); pv["max_time_residual_tolerance"] = dec(s["tmax"][1].get<int>()*1e-6); pv["min_time_residual_improvement"] = dec(s["tmax"][2].get<int>()*1e-9);
  for (auto it = s["ws"].begin(); it != s["ws"].end(); ++it) root["solver_variables"][it.key()] = it.value().get<std::string>();
}
static std::string file(const json& s, const json& run, double mg, int p)
{
  YAML::Node root = YAML::LoadFile(std::string(VF_DIR) + "/planner.yaml");
  base(s, root, mg);
  YAML::Node cp = root["contact_plan"], ini = root["initial_robot_configuration"];
  double dt = s["dt"].get<int>()/1000.;
  for (int f=0; f<4; f++) {
    YAML::Node c(YAML::NodeType::Sequence);
    for (auto& x : run["plan"][f]) {
      std::vector<double> r = {x["s"].get<int>()*dt, x["e"].get<int>()*dt};
      app(r, vals(x["pos"], 1/100.)); app(r, unitq(x["ori"])); r.push_back(x["typ"].get<int>()); r.push_back(-1);
      c.push_back(list(r));
    }
    cp[std::string("effcnt_")+eff[f]] = c;
    const json& i = run["ini"]["feet"][f];
    std::vector<double> r = {i["act"].get<double>()}; app(r, vals(i["pos"], 1/100.)); app(r, {1,0,0,0});
    ini["eef_pose"][std::string("eef_")+eff[f]] = list(r);
    ini["eef_ctrl"][std::string("eef_frc_")+eff[f]] = list(vals(i["frc"], 1/100.));
  }
  ini["com"] = list(vals(run["ini"]["com"], 1/100.)); ini["lmom"] = list(vals(run["ini"]["lmom"], mg/100.)); ini["amom"] = list(vals(run["ini"]["amom"], mg/100.));
  std::string path = dir + "/dyn" + std::to_string(p) + ".yaml";
  std::ofstream o(path); o << root; return path;
}
static const double S = 1e7;
static json vec(const Eigen::Vector3d& v, double d = 1) { return nums(Eigen::Vector3d(v/d), S); }
static json state(const DynamicsState& d, double mg)
{
  json r{{"dt",num(d.time(),S)},{"com",vec(d.centerOfMass())},{"l",vec(d.linearMomentum(),mg)},{"a",vec(d.angularMomentum(),mg)},{"feet",json::array()}};
  for (int f=0; f<4; f++)
    r["feet"].push_back(json{{"act",d.endeffectorActivation(f)},{"f",vec(d.endeffectorForce(f))},{"cop",vec(d.endeffectorCoP(f))},{"trq",vec(d.endeffectorTorque(f),mg)},{"tcp",vec(d.endeffectorTorqueAtContactPoint(f),mg)}});
  return r;
}
// the plan as written to a file
static json saved(const std::string& path, double mg, int neff, int n)
{
  YAML::Node d = YAML::LoadFile(path)["dynopt_params"];
  auto cols = [&](const YAML::Node& y, int rows, double unit) { Eigen::MatrixXd m = y.as<Eigen::MatrixXd>(); json a = json::array(); if (m.rows() != rows || m.cols() != n) return a; for (int k=0; k<n; k++) a.push_back(nums(Eigen::VectorXd(m.col(k)/unit), S)); return a; };
  json o{{"com",cols(d["com_motion"],3,1)},{"l",cols(d["lin_mom"],3,mg)},{"a",cols(d["ang_mom"],3,mg)},{"t",cols(d["time_vec"],1,1)},
         {"rcom",cols(d["com_motion_ref"],3,1)},{"rl",cols(d["lin_mom_ref"],3,mg)},{"ra",cols(d["ang_mom_ref"],3,mg)},{"f",json::array()},{"trq",json::array()}};
  for (int f=0; f<neff; f++) { o["f"].push_back(cols(d["eef_frc_"+std::to_string(f)],3,1)); o["trq"].push_back(cols(d["eef_trq_"+std::to_string(f)],1,mg)); }
  return o;
}
static void dyn(const json& s)
{
  double mg = s["mass"].get<int>()/10.*(s["grav"].get<int>()/100.);
  json out{{"event","dyn"},{"runs",json::array()}};
  PlannerSetting setting; DynamicsOptimizer opt; TerrainDescription terrain;
  int p = 0, n = s["n"];
  for (auto& run : s["runs"]) {
    std::string path = file(s, run, mg, p);
    if (p == 0) { setting.initialize(path); opt.initialize(setting); setting.get(PlannerStringParam_SaveDynamicsFile) = dir + "/saved.yaml"; }
    PlannerSetting own; own.initialize(path);
    DynamicsState ini; ini.fillInitialRobotState(path);
    ContactPlanFromFile cp; cp.initialize(own); cp.optimize(ini, terrain);
    KinematicsSequence kin; kin.resize(n, 8);
    for (int k=0; k<n; k++) {
      kin.kinematicsState(k).centerOfMass() = v3(run["refs"][k]["com"], 1/100.);
      kin.kinematicsState(k).linearMomentum() = v3(run["refs"][k]["l"], mg/100.);
      kin.kinematicsState(k).angularMomentum() = v3(run["refs"][k]["a"], mg/100.);
    }
    json o;
    try { o["code"] = (int)opt.optimize(ini, &cp, kin, run["track"].get<bool>()); o["threw"] = false; }
    catch (const std::exception& e) { o["code"] = -1; o["threw"] = true; }
    o["size"] = opt.dynamicsSequence().size(); o["states"] = json::array();
    for (int k=0; k<n && k<opt.dynamicsSequence().size(); k++) o["states"].push_back(state(opt.dynamicsSequence().dynamicsState(k), mg));
    if (s["store"].get<bool>()) { o["saved"] = saved(dir + "/saved.yaml", mg, s["neff"], n); unlink((dir + "/saved.yaml").c_str()); }
    out["runs"].push_back(o);
    p++;
  }
  emit(out);
}
int main(int argc, char** argv)
{
  char t[] = "/tmp/vf_dyn_XXXXXX"; if (!mkdtemp(t)) return 2; dir = t;
  int rc = run(argc, argv, 60, [](const json& s) { dyn(s); });
  for (const char* f : {"/dyn0.yaml", "/dyn1.yaml", "/dyn2.yaml", "/saved.yaml"}) unlink((dir + f).c_str());
  rmdir(dir.c_str());
  return rc;
}
