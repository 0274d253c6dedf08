// C24: the C++ side of the Python bindings.  A second extension module in the same shared object;
// it reads and writes every quantity through the C++ interface alone, one cell per quantity.
// Numbers are in millionths; a matrix is <<rows, cols, entries row by row>>.
#include <cmath>
#include <map>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <momentumopt/cntopt/ContactState.hpp>
#include <momentumopt/dynopt/DynamicsState.hpp>
#include <momentumopt/kinopt/KinematicsState.hpp>
#include <momentumopt/kinopt/KinematicsInterface.hpp>
#include <momentumopt/setting/PlannerSetting.hpp>
#include <solver_lqr/SolverLqrSetting.hpp>
#include <solver/interface/SolverSetting.hpp>
namespace py = pybind11;
using namespace momentumopt;
typedef std::vector<long long> L;
typedef std::map<std::string, L> M;

static long long i6(double x) { double r = std::round(x*1e6); return std::fabs(r) < 2e9 ? (long long)r : 1999999999LL; }
static double d6(long long v) { return v/1e6; }
template <class V> static L lv(const V& v) { L r; for (int i=0; i<(int)v.size(); i++) r.push_back(i6(v[i])); return r; }
static L lq(const Eigen::Quaterniond& q) { return {i6(q.x()), i6(q.y()), i6(q.z()), i6(q.w())}; }
static Eigen::Quaterniond qd(const L& v) { return Eigen::Quaterniond(d6(v[3]), d6(v[0]), d6(v[1]), d6(v[2])); }
static Eigen::VectorXd vd(const L& v) { Eigen::VectorXd r(v.size()); for (int i=0; i<(int)v.size(); i++) r[i] = d6(v[i]); return r; }
static L lm(const Eigen::MatrixXd& m) { L r{m.rows(), m.cols()}; for (int i=0; i<m.rows(); i++) for (int j=0; j<m.cols(); j++) r.push_back(i6(m(i,j))); return r; }
static Eigen::MatrixXd md(const L& v) { Eigen::MatrixXd m(v[0], v[1]); for (int i=0; i<m.rows(); i++) for (int j=0; j<m.cols(); j++) m(i,j) = d6(v[2+i*m.cols()+j]); return m; }

// one row per cell: C(name, read, write); the row is used for both directions
#define ROW(nm, rd, wr) { const std::string name = nm; if (!in) out[name] = rd; else if (name == *key) { const L& v = *in; wr; hit = true; } }
#define V3(nm, acc) ROW(nm, lv(o.acc), o.acc = vd(v))
#define S1(nm, acc) ROW(nm, L{i6(o.acc)}, o.acc = d6(v[0]))
#define Q4(nm, acc) ROW(nm, lq(o.acc), o.acc = qd(v))

static bool cells(DynamicsState& o, M& out, const std::string* key, const L* in) {
  bool hit = false;
  S1("dt", time()) V3("com", centerOfMass()) V3("lmom", linearMomentum()) V3("amom", angularMomentum()) V3("lmomd", linearMomentumRate()) V3("amomd", angularMomentumRate())
  for (int e=0; e<Problem::n_endeffs_; e++) {
    std::string s = std::to_string(e);
    V3("pos"+s, endeffectorPosition(e)) V3("vel"+s, endeffectorVelocity(e)) V3("acc"+s, endeffectorAcceleration(e)) V3("cop"+s, endeffectorCoP(e))
    V3("frc"+s, endeffectorForce(e)) V3("trq"+s, endeffectorTorque(e)) V3("tcp"+s, endeffectorTorqueAtContactPoint(e)) Q4("ori"+s, endeffectorOrientation(e))
    ROW("act"+s, L{o.endeffectorActivation(e)}, o.endeffectorActivation(e) = v[0])
    ROW("aid"+s, L{o.endeffectorActivationId(e)}, o.endeffectorActivationId(e) = v[0])
    ROW("cid"+s, L{o.endeffectorContactId(e)}, o.endeffectorContactId(e) = v[0])
  }
  return hit;
}
static bool cells(ContactState& o, M& out, const std::string* key, const L* in) {
  bool hit = false;
  S1("ini", contactActivationTime()) S1("end", contactDeactivationTime()) V3("pos", contactPosition()) Q4("ori", contactOrientation())
  ROW("type", L{(int)o.contactType()}, o.contactType() = (ContactType)v[0])
  ROW("sel", L{o.selectedAsActive()}, o.selectedAsActive() = v[0])
  ROW("ter", L{o.terrainId()}, o.terrainId() = v[0])
  ROW("opt", L{o.optimizationId()}, o.optimizationId() = v[0])
  return hit;
}
static bool cells(RobotPosture& o, M& out, const std::string* key, const L* in) {
  bool hit = false;
  V3("bp", basePosition()) Q4("bq", baseOrientation()) V3("q", jointPositions())
  return hit;
}
static bool cells(RobotVelocity& o, M& out, const std::string* key, const L* in) {
  bool hit = false;
  V3("vl", baseLinearVelocity()) V3("va", baseAngularVelocity()) V3("dq", jointVelocities())
  return hit;
}
static bool cells(RobotAcceleration& o, M& out, const std::string* key, const L* in) {
  bool hit = false;
  V3("al", baseLinearAcceleration()) V3("aa", baseAngularAcceleration()) V3("ddq", jointAccelerations())
  return hit;
}
static bool cells(KinematicsState& o, M& out, const std::string* key, const L* in) {
  bool hit = cells(o.robotPosture(), out, key, in) | cells(o.robotVelocity(), out, key, in) | cells(o.robotAcceleration(), out, key, in);
  V3("com", centerOfMass()) V3("lmom", linearMomentum()) V3("amom", angularMomentum())
  for (int e=0; e<Problem::n_endeffs_; e++) {
    std::string s = std::to_string(e);
    V3("pos"+s, endeffectorPosition(e)) V3("vel"+s, endeffectorVelocity(e)) V3("acc"+s, endeffectorAcceleration(e)) Q4("ori"+s, endeffectorOrientation(e))
  }
  return hit;
}
static bool cells(KinematicsInterface& o, M& out, const std::string* key, const L* in) {
  bool hit = false;
  ROW("cvec", lv(o.constraintsVector()), o.constraintsVector(vd(v)))
  ROW("cmat", lm(o.constraintsMatrix()), o.constraintsMatrix(md(v)))
  ROW("jcom", lm(o.centerOfMassJacobian()), o.centerOfMassJacobian(md(v)))
  ROW("cmm", lm(o.centroidalMomentumMatrix()), o.centroidalMomentumMatrix(md(v)))
  ROW("cmmv", lm(o.centroidalMomentumMatrixVariation()), o.centroidalMomentumMatrixVariation(md(v)))
  const KinematicsInterface& c = o;
  if (in && key->substr(0, 3) == "jac" && c.endeffectorJacobians().empty()) o.endeffectorJacobians(std::vector<Eigen::MatrixXd>(Problem::n_endeffs_, Eigen::MatrixXd::Zero(1, 1)));
  if (!c.endeffectorJacobians().empty())
    for (int e=0; e<Problem::n_endeffs_; e++) ROW("jac"+std::to_string(e), lm(o.endeffectorJacobian(e)), o.endeffectorJacobian(e) = md(v))
  return hit;
}

#define P_INT(X) X(NumDofs) X(NumTimesteps) X(NumViapoints) X(NumJointViapoints) X(NumBaseViapoints) X(NumJointViapoints_Second) X(NumBaseViapoints_Second) \
  X(NumActiveDofs) X(MaxNumTimeIterations) X(NumExtendedActiveDofs) X(NumActiveEndeffectors) X(MaxKinConvergenceIterations) X(NumSubsamples) X(KinDynIterations)
#define P_BOOL(X) X(IsTimeHorizonFixed) X(IsFrictionConeLinear) X(DisplayMotion) X(LoadKinematics) X(StoreData) X(UseDefaultSolverSetting) X(UseSecondOrderInverseKinematics)
#define P_DBL(X) X(Gravity) X(TimeStep) X(RobotMass) X(RobotWeight) X(TimeHorizon) X(MinRelHeight) X(FrictionCoefficient) X(MaxTimeResidualTolerance) \
  X(MinTimeResidualImprovement) X(WeightArmTorque) X(WeightLegTorque) X(WeightTimePenalty) X(WeightTimeRegularization) X(FloorHeight) \
  X(KinConvergenceTolerance) X(SwingTrajViaZ) X(WeightLinMomentumTracking) X(WeightAngMomentumTracking) X(WeightEndEffContact) X(WeightEndEffTracking) \
  X(PGainEndEffTracking) X(PGainComTracking) X(WeightJointReg) X(PGainOrientationTracking) X(PGainPositionTracking) X(SwingTrajViaZ_Second) X(WeightLinMomentumTracking_Second) \
  X(WeightAngMomentumTracking_Second) X(WeightEndEffContact_Second) X(WeightEndEffTracking_Second) X(PGainEndEffTracking_Second) X(PGainComTracking_Second) X(WeightJointReg_Second) \
  X(DGainEndEffTracking_Second) X(PGainBaseOrientationTracking_Second) X(DGainBaseOrientationTracking_Second) X(PGainJointRegularization_Second) X(DGainJointRegularization_Second)
#define P_STR(X) X(ConfigFile) X(SaveDynamicsFile) X(SaveKinematicsFile) X(DefaultSolverSettingFile)
#define P_VEC(X) X(TimeRange) X(TorqueRange) X(ExternalForce) X(GravityVector) X(CenterOfMassMotion) X(MaxEndeffectorLengths) X(WeightArmForce) X(WeightLegForce) X(WeightArmForceRate) \
  X(WeightLegForceRate) X(WeightCenterOfMass) X(WeightLinearMomentum) X(WeightAngularMomentum) X(WeightLinearMomentumRate) X(WeightAngularMomentumRate) X(WeightFinalLinearMomentum) \
  X(WeightCenterOfMassViapoint) X(WeightFinalAngularMomentum) X(WeightDynamicTrackingLinearMomentum) X(WeightDynamicTrackingAngularMomentum) \
  X(MinJointAngles) X(MaxJointAngles) X(KinematicDefaultJointPositions) X(WeightJointVelocity) X(WeightJointAcceleration) X(WeightKinematicTrackingCenterOfMass) \
  X(WeightKinematicDefaultJointPositions) X(WeightKinematicTrackingLinearMomentum) X(WeightKinematicTrackingAngularMomentum) X(WeightKinematicTrackingBaseOrientation) \
  X(WeightKinematicTrackingLinearMomentumRate) X(WeightKinematicTrackingAngularMomentumRate) X(WeightKinematicTrackingEndeffectorPosition) X(PGainMomentumTracking_Second)
#define P_CVEC(X) X(Viapoints) X(JointViapoints) X(BaseViapoints) X(JointViapoints_Second) X(BaseViapoints_Second)

static bool cells(PlannerSetting& o, M& out, const std::string* key, const L* in) {
  bool hit = false;
#define X(n) ROW("Int_" #n, L{o.get(PlannerIntParam_##n)}, o.get(PlannerIntParam_##n) = v[0])
  P_INT(X)
#undef X
#define X(n) ROW("Bool_" #n, L{o.get(PlannerBoolParam_##n)}, o.get(PlannerBoolParam_##n) = v[0])
  P_BOOL(X)
#undef X
#define X(n) ROW("Double_" #n, L{i6(o.get(PlannerDoubleParam_##n))}, o.get(PlannerDoubleParam_##n) = d6(v[0]))
  P_DBL(X)
#undef X
#define X(n) ROW("String_" #n, L(o.get(PlannerStringParam_##n).begin(), o.get(PlannerStringParam_##n).end()), o.get(PlannerStringParam_##n) = std::string(v.begin(), v.end()))
  P_STR(X)
#undef X
#define X(n) ROW("Vector_" #n, lv(o.get(PlannerVectorParam_##n)), o.get(PlannerVectorParam_##n) = vd(v))
  P_VEC(X)
#undef X
#define X(n) ROW("CVector_" #n, ([&]{ L r; for (auto& w : o.get(PlannerCVectorParam_##n)) { r.push_back(w.size()); for (auto x : lv(w)) r.push_back(x); } return r; })(), \
    ([&]{ std::vector<Eigen::VectorXd> w; for (size_t i=0; i<v.size(); i += 1+v[i]) w.push_back(vd(L(v.begin()+i+1, v.begin()+i+1+v[i]))); o.get(PlannerCVectorParam_##n) = w; })())
  P_CVEC(X)
#undef X
  return hit;
}

static std::map<std::string, long long> enums() {
  std::map<std::string, long long> r;
#define X(n) r["PlannerIntParam.PlannerIntParam_" #n] = PlannerIntParam_##n;
  P_INT(X)
#undef X
#define X(n) r["PlannerBoolParam.PlannerBoolParam_" #n] = PlannerBoolParam_##n;
  P_BOOL(X)
#undef X
#define X(n) r["PlannerDoubleParam.PlannerDoubleParam_" #n] = PlannerDoubleParam_##n;
  P_DBL(X)
#undef X
#define X(n) r["PlannerStringParam.PlannerStringParam_" #n] = PlannerStringParam_##n;
  P_STR(X)
#undef X
#define X(n) r["PlannerVectorParam.PlannerVectorParam_" #n] = PlannerVectorParam_##n;
  P_VEC(X)
#undef X
#define X(n) r["PlannerCVectorParam.PlannerCVectorParam_" #n] = PlannerCVectorParam_##n;
  P_CVEC(X)
#undef X
#define X(t, n) r[#t "." #n] = (int)t::n;
  X(ContactType, FreeContact) X(ContactType, FlatContact) X(ContactType, FullContact)
  X(Heuristic, TrustRegion) X(Heuristic, SoftConstraint) X(Heuristic, TimeOptimization)
#undef X
  r["PlannerIntVectorParam.PlannerIntVectorParam_ActiveDofs"] = PlannerIntVectorParam_ActiveDofs;
  r["PlannerIntVectorParam.PlannerIntVectorParam_ExtendedActiveDofs"] = PlannerIntVectorParam_ExtendedActiveDofs;
  r["EffId.right_foot"] = (int)Problem::EffId::id_right_foot; r["EffId.left_foot"] = (int)Problem::EffId::id_left_foot;
  r["EffId.right_hand"] = (int)Problem::EffId::id_right_hand; r["EffId.left_hand"] = (int)Problem::EffId::id_left_hand;
  return r;
}

template <class T> static void def(py::module& m) {
  m.def("dump", [](T& o) { M r; cells(o, r, nullptr, nullptr); return r; });
  m.def("put", [](T& o, const std::string& k, const L& v) { M r; return cells(o, r, &k, &v); });
}

PYBIND11_MODULE(vfview, m) {
  py::module::import("pymomentum");
  def<DynamicsState>(m); def<ContactState>(m); def<RobotPosture>(m); def<RobotVelocity>(m); def<RobotAcceleration>(m);
  def<KinematicsState>(m); def<KinematicsInterface>(m); def<PlannerSetting>(m);
  m.def("enums", &enums);
  // element i of a sequence, reached through C++
  m.def("dyn_size", [](DynamicsSequence& s) { return s.size(); });
  m.def("kin_size", [](KinematicsSequence& s) { return s.size(); });
  m.def("cnt_size", [](ContactSequence& s, int e) { return s.numEndeffectorContacts(e); });
  m.def("dyn_dump", [](DynamicsSequence& s, int i) { M r; cells(s.dynamicsState(i), r, nullptr, nullptr); return r; });
  m.def("kin_dump", [](KinematicsSequence& s, int i) { M r; cells(s.kinematicsState(i), r, nullptr, nullptr); return r; });
  m.def("cnt_dump", [](ContactSequence& s, int e, int i) { M r; cells(s.endeffectorContacts(e)[i], r, nullptr, nullptr); return r; });
  m.def("dyn_put", [](DynamicsSequence& s, int i, const std::string& k, const L& v) { M r; return cells(s.dynamicsState(i), r, &k, &v); });
  m.def("kin_put", [](KinematicsSequence& s, int i, const std::string& k, const L& v) { M r; return cells(s.kinematicsState(i), r, &k, &v); });
  m.def("cnt_put", [](ContactSequence& s, int e, int i, const std::string& k, const L& v) { M r; return cells(s.endeffectorContacts(e)[i], r, &k, &v); });
  // calls of the kinematics interface as the C++ optimizer makes them
  m.def("call_initialize", [](KinematicsInterface& k, PlannerSetting& s) { k.initialize(s); });
  m.def("call_display", [](KinematicsInterface& k, KinematicsState& s, long long dt) { k.displayPosture(s, d6(dt)); });
  m.def("call_log", [](KinematicsInterface& k, const L& q) { return lv(k.logarithmicMap(Eigen::Vector4d(vd(q)))); });
  m.def("call_integrate", [](KinematicsInterface& k, KinematicsState& s, long long dt) { KinematicsState r = k.integratePosture(s, d6(dt)); M o; cells(r, o, nullptr, nullptr); return o; });
  m.def("call_update", [](KinematicsInterface& k, KinematicsState& s, long long dt) { KinematicsState r = k.updateJacobiansAndState(s, d6(dt)); M o; cells(r, o, nullptr, nullptr); return o; });
  m.def("call_diff", [](KinematicsInterface& k, KinematicsState& a, KinematicsState& b, long long dt) { KinematicsState r = k.differentiatePostures(a, b, d6(dt)); M o; cells(r, o, nullptr, nullptr); return o; });
}
