// C10, C11: contact plans loaded from files and filled into dynamics sequences; terrain regions; trajectories.
#include "vfh.hpp"
#include <cstdio>
#include <unistd.h>
#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
using namespace vfh;
using namespace momentumopt;
static std::string dir;
static const char* eff[4] = {"rf","lf","rh","lh"};
static std::string dec(long long v, int digits) { long long p = 1; for (int i=0; i<digits; i++) p *= 10; char b[64]; std::snprintf(b, 64, "%s%lld.%0*lld", v<0?"-":"", std::llabs(v)/p, digits, std::llabs(v)%p); return b; }
static YAML::Node list(const std::vector<std::string>& v) { YAML::Node n(YAML::NodeType::Sequence); for (auto& s : v) n.push_back(s); n.SetStyle(YAML::EmitterStyle::Flow); return n; }
static void app(std::vector<std::string>& v, const json& a, int digits) { for (auto& x : a) v.push_back(dec(x.get<long long>(), digits)); }
static std::vector<std::string> strs(const json& a, int digits) { std::vector<std::string> v; app(v, a, digits); return v; }
static json vec(const Eigen::Vector3d& v) { return nums(v, 1e6); }
static json quat(const Eigen::Quaternion<double>& q) { return json{num(q.w(),1e6), num(q.x(),1e6), num(q.y(),1e6), num(q.z(),1e6)}; }

static std::string file(const json& s, int p)
{
  YAML::Node root = YAML::LoadFile(std::string(VF_DIR) + "/planner.yaml");
  YAML::Node pv = root["planner_variables"];
  pv["time_step"] = dec(s["dt"].get<int>(), 3);
  pv["time_horizon"] = dec(s["dt"].get<int>()*s["n"].get<int>(), 3);
  pv["load_kinematics"] = s["kin"].get<bool>() ? "true" : "false";
  pv["com_displacement"] = list(strs(s["motion"], 2));
  const json& pl = s["plans"][p];
  YAML::Node cp = root["contact_plan"], ini = root["initial_robot_configuration"];
  for (int f=0; f<4; f++) {
    YAML::Node c(YAML::NodeType::Sequence), v(YAML::NodeType::Sequence);
    for (auto& x : pl["feet"][f]) {
      std::vector<std::string> r = {dec(x["s"].get<int>(),3), dec(x["e"].get<int>(),3)};
      app(r, x["pos"], 2); app(r, x["ori"], 3); r.push_back(dec(x["typ"].get<int>(),1).c_str()); r.back() = std::to_string(x["typ"].get<int>())+".0"; r.push_back(std::to_string(x["ter"].get<int>())+".0");
      c.push_back(list(r));
    }
    for (auto& x : pl["vias"][f]) { std::vector<std::string> r = {std::to_string(x["id"].get<int>())}; app(r, x["pos"], 2); app(r, x["ori"], 3); v.push_back(list(r)); }
    cp[std::string("effcnt_")+eff[f]] = c; cp[std::string("effvia_")+eff[f]] = v;
    const json& i = pl["ini"][f];
    std::vector<std::string> r = {std::to_string(i["act"].get<int>())+".0"}; app(r, i["pos"], 2); app(r, i["ori"], 3);
    ini["eef_pose"][std::string("eef_")+eff[f]] = list(r);
    ini["eef_ctrl"][std::string("eef_frc_")+eff[f]] = list(strs(i["frc"], 2));
  }
  ini["com"] = list(strs(pl["com"],2)); ini["lmom"] = list(strs(pl["lmom"],2)); ini["amom"] = list(strs(pl["amom"],2));
  std::string path = dir + "/plan" + std::to_string(p) + ".yaml";
  std::ofstream f(path); f << root; return path;
}

static json robot(const DynamicsState& st)
{
  json r{{"com",vec(st.centerOfMass())},{"lmom",vec(st.linearMomentum())},{"amom",vec(st.angularMomentum())},{"feet",json::array()}};
  for (int f=0; f<4; f++) r["feet"].push_back(json{{"act",st.endeffectorActivation(f) ? 1 : 0},{"pos",vec(st.endeffectorPosition(f))},{"ori",quat(st.endeffectorOrientation(f))},{"frc",vec(st.endeffectorForce(f))}});
  return r;
}
static json steps(const DynamicsSequence& seq, int f)
{
  json a = json::array();
  for (int k=0; k<seq.size(); k++) {
    const DynamicsState& d = seq.dynamicsState(k);
    a.push_back(json{{"act",d.endeffectorActivation(f)},{"cnt",d.endeffectorContactId(f)},{"num",d.endeffectorActivationId(f)},{"pos",vec(d.endeffectorPosition(f))},{"ori",quat(d.endeffectorOrientation(f))},
                     {"vel",json::array()},{"acc",json::array()}});
  }
  return a;
}
static void sched(const json& s)
{
  PlannerSetting setting; ContactPlanFromFile plan; DynamicsSequence seq; TerrainDescription terrain;
  json out{{"event","sched"},{"plans",json::array()}};
  int n = s["n"];
  seq.resize(n);
  for (int k=0; k<n; k++) seq.dynamicsState(k).time() = s["durs"][k].get<int>()/1000.;
  for (int p=0; p<(int)s["plans"].size(); p++) {
    std::string path = file(s, p);
    setting.initialize(path);
    plan.initialize(setting);
    DynamicsState ini; ini.fillInitialRobotState(path);
    plan.optimize(ini, terrain);
    for (int f=0; f<4; f++)
      for (int c=0; c<(int)s["plans"][p]["feet"][f].size() && c<(int)plan.contactSequence().endeffectorContacts(f).size(); c++)
        if (s["plans"][p]["feet"][f][c]["sel"].get<int>() == 0) plan.contactSequence().endeffectorContacts(f)[c].selectedAsActive(false);
    plan.fillDynamicsSequence(ini, seq);
    json o{{"steps",setting.get(PlannerIntParam_NumTimesteps)},{"robot",robot(ini)},{"feet",json::array()}};
    std::vector<json> filled; for (int f=0; f<4; f++) filled.push_back(steps(seq, f));
    plan.updateEndeffectorTrajectories(ini, seq);
    o["contacts"] = plan.contactSequence().numOptimizationContacts();
    for (int f=0; f<4; f++) {
      json g{{"contacts",json::array()},{"vias",json::array()},{"fill",filled[f]},{"swing",steps(seq, f)},{"count",seq.activeEndeffectorSteps()[f]}};
      const ContactSequence& cs = plan.contactSequence();
      for (int c=0; c<cs.numEndeffectorContacts(f); c++) {
        const ContactState& x = cs.endeffectorContacts(f)[c];
        g["contacts"].push_back(json{{"s",num(x.contactActivationTime(),1e6)},{"e",num(x.contactDeactivationTime(),1e6)},{"pos",vec(x.contactPosition())},{"ori",quat(x.contactOrientation())},
          {"typ",(int)x.contactType()},{"ter",x.terrainId()},{"opt",x.optimizationId()}});
      }
      if (s["kin"].get<bool>()) for (int v=0; v<plan.viapointSequence().numEndeffectorViapoints(f); v++) {
        ViapointState& x = plan.viapointSequence().endeffectorViapoints(f)[v];
        g["vias"].push_back(json{{"id",x.viapointId()},{"opt",x.optimizationId()},{"pos",vec(x.viapointPosition())},{"ori",quat(x.viapointOrientation())}});
      }
      // velocities and accelerations of a flight, made dimensionless by its duration
      json& sw = g["swing"];
      for (int k=0; k<n; k++) {
        int a = k, b = k;
        while (a > 0 && !seq.dynamicsState(a-1).endeffectorActivation(f)) a--;
        while (b+1 < n && !seq.dynamicsState(b+1).endeffectorActivation(f)) b++;
        double T = 0; for (int i=a+1; i<=b; i++) T += s["durs"][i].get<int>()/1000.;
        if (seq.dynamicsState(k).endeffectorActivation(f) || T == 0) T = 1;
        sw[k]["vel"] = nums(Eigen::Vector3d(seq.dynamicsState(k).endeffectorVelocity(f)*T), 1e4);
        sw[k]["acc"] = nums(Eigen::Vector3d(seq.dynamicsState(k).endeffectorAcceleration(f)*T*T), 1e4);
      }
      o["feet"].push_back(g);
    }
    out["plans"].push_back(o);
  }
  emit(out);
}

static void terrain(const json& s)
{
  TerrainDescription t; std::vector<Eigen::Matrix<double,Eigen::Dynamic,3>> regs;
  auto at = [](const json& g, double a, double b) {
    Eigen::Vector3d p; for (int i=0; i<3; i++) p[i] = g["o"][i].get<int>() + a*g["fr"][0][i].get<int>() + b*g["fr"][1][i].get<int>(); return p; };
  YAML::Node regions(YAML::NodeType::Sequence);
  for (auto& g : s["regs"]) {
    Eigen::Matrix<double,Eigen::Dynamic,3> m(g["poly"].size(), 3); YAML::Node r(YAML::NodeType::Sequence);
    for (int i=0; i<(int)g["poly"].size(); i++) {
      m.row(i) = at(g, g["poly"][i][0].get<int>(), g["poly"][i][1].get<int>());
      r.push_back(list({std::to_string(m(i,0)), std::to_string(m(i,1)), std::to_string(m(i,2))}));
    }
    regs.push_back(m); regions.push_back(r);
  }
  if (s["file"].get<bool>()) {
    YAML::Node root; root["terrain_description"]["regions"] = regions;
    std::string path = dir + "/terrain.yaml"; { std::ofstream f(path); f << root; }
    t.loadFromFile(path);
  } else for (auto& m : regs) t.addTerrainRegion(m);
  json out{{"event","terrain"},{"n",t.numRegions()},{"regs",json::array()}};
  for (int r=0; r<t.numRegions() && r<(int)regs.size(); r++) {
    const TerrainRegion& g = t.terrainRegion(r); const json& sg = s["regs"][r];
    double big = 1; for (int i=0; i<regs[r].rows(); i++) big = std::max(big, regs[r].row(i).norm());
    Eigen::Vector3d nrm = g.normalToTerrain(), u = at(sg,1,0)-at(sg,0,0), v = at(sg,0,1)-at(sg,0,0);
    json o{{"id",g.terrainId()},{"point",vec(g.pointOnTerrain())},{"norm",num(nrm.norm(),1e6)},{"perp",json{num(nrm.dot(u),1e6),num(nrm.dot(v),1e6)}},{"in",json::array()}};
    // the rotation of the region, its third axis, the length of the edge across its first axis, and its quaternion
    Eigen::Matrix3d rot = g.terrainRotation(); Eigen::Vector3d e = (regs[r].row(0) - regs[r].row(1)).transpose().normalized();
    o["rot"] = json::array(); for (int i=0; i<3; i++) o["rot"].push_back(json{num(rot(i,0),1e4),num(rot(i,1),1e4),num(rot(i,2),1e4)});
    o["nrm"] = json{num(nrm[0],1e4),num(nrm[1],1e4),num(nrm[2],1e4)};
    o["along"] = num(Eigen::Vector3d(rot.row(0)).cross(e).norm(),1e6);
    o["quat"] = num((g.terrainOrientation().toRotationMatrix()-rot).cwiseAbs().maxCoeff(),1e6);
    for (auto& p : s["pts"][r]) {
      Eigen::Vector3d x = at(sg, p[0].get<int>()/4., p[1].get<int>()/4.);
      Eigen::VectorXd d = g.terrainDescriptionMatrix()*x - g.terrainDescriptionVector();
      bool bad = false; for (int i=0; i<d.size(); i++) if (std::isnan(d[i])) bad = true;
      o["in"].push_back(bad ? 2 : d.size() == 0 || d.maxCoeff() <= 1e-9*big ? 1 : 0);
    }
    out["regs"].push_back(o);
  }
  emit(out);
}

static void traj(const json& s)
{
  TrajectoryGenerator g; double t0 = s["t0"].get<int>()/1000., T = s["dur"].get<int>()/1000., t1 = (s["t0"].get<int>()+s["dur"].get<int>())/1000.;
  auto pt = [&](const char* k) { Eigen::Vector3d p; for (int i=0; i<3; i++) p[i] = s[k][i].get<int>()/100.; return p; };
  g.initialize(t0, pt("p0"), t1, pt("p1"), pt("pv"));
  json out{{"event","traj"},{"out",json::array()}};
  for (auto& q : s["q"]) {
    int k = q; g.update(k == 0 ? t0 : k == 16 ? t1 : t0 + T*k/16.);
    out["out"].push_back(json{{"p",vec(g.desPos())},{"v",nums(Eigen::Vector3d(g.desVel()*T),1e4)},{"a",nums(Eigen::Vector3d(g.desAcc()*T*T),1e4)}});
  }
  emit(out);
}
static json both(double x) { return json{num(x, 64.), num(x, 64.*4096)}; }
static void interp(const json& s)
{
  auto poly = [&](double t, int d) {
    double x = t - s["c"].get<int>(), r = 0;
    for (int i=(int)s["co"].size()-1; i>=d; i--) { double c = s["co"][i].get<int>(); for (int j=0; j<d; j++) c *= i-j; r = r*x + c; }
    return r;
  };
  auto mat = [&](const char* k, int d) { Interpolator::InterpMat m(s[k].size(), 2); for (int i=0; i<m.rows(); i++) { m(i,0) = s[k][i].get<int>(); m(i,1) = poly(m(i,0), d); } return m; };
  Interpolator I; I.initialize(mat("tp",0), mat("tv",1), mat("ta",2));
  json out{{"event","interp"},{"out",json::array()}};
  for (auto& q : s["q"]) { double p, v, a; I.interpolate(q.get<int>()/2., p, v, a); out["out"].push_back(json{both(p), both(v), both(a)}); }
  emit(out);
}
int main(int argc, char** argv)
{
  char t[] = "/tmp/vf_plan_XXXXXX"; if (!mkdtemp(t)) return 2; dir = t;
  int rc = run(argc, argv, 20, [](const json& s) {
    std::string k = s["kind"];
    if (k == "sched") sched(s); else if (k == "terrain") terrain(s); else if (k == "traj") traj(s); else interp(s);
  });
  for (const char* f : {"/plan0.yaml", "/plan1.yaml", "/terrain.yaml"}) unlink((dir + f).c_str());
  rmdir(dir.c_str());
  return rc;
}
