// C09: one settings object under a history of load and set operations; after each, every parameter is read.
#include "vfh.hpp"
#include <sstream>
#include <unistd.h>
#include <solver/interface/SolverSetting.hpp>
#include <solver_lqr/SolverLqrSetting.hpp>
#include <momentumopt/setting/PlannerSetting.hpp>
using namespace vfh;
using namespace momentumopt; using namespace solver; using namespace solverlqr;

static std::string dir;
static std::string dec(long long v) { char b[64]; std::snprintf(b, 64, "%s%lld.%03lld", v<0?"-":"", std::llabs(v)/1000, std::llabs(v)%1000); return b; }
static double dbl(long long v) { return std::strtod(dec(v).c_str(), nullptr); }
static std::string S(int v) { return std::to_string(v); }
static std::string S(bool v) { return v ? "1" : "0"; }
static std::string S(double x) {
  double r = std::round(x*1000);
  if (!(std::fabs(r) < 2e9) || std::fabs(x*1000-r) > 1e-9*std::max(1., std::fabs(r))) { std::ostringstream o; o.precision(17); o << "x" << x; return o.str(); }
  return std::to_string((long long)r);
}
static std::string S(const std::string& s) {
  std::string t = s; auto p = t.find(dir); if (p != std::string::npos) t.erase(p, dir.size()); return t;
}
template <typename V> static std::string SV(const V& v) {
  std::string s; for (int i=0; i<(int)v.size(); i++) s += (i ? ", " : "") + S(v[i]);
  return "<<" + s + ">>";
}
template <typename V> static std::string SVV(const V& v) {
  std::string s; for (int i=0; i<(int)v.size(); i++) s += (i ? ", " : "") + SV(v[i]);
  return "<<" + s + ">>";
}
template <typename F> static std::string guard(F f) { try { return f(); } catch (const std::exception&) { return "!"; } }
// read through the const and the non-const interface
#define BOTH(name, expr) { const auto& K = obj; std::string a, b; { auto& O = K; a = guard([&]{ return expr; }); } { auto& O = obj; b = guard([&]{ return expr; }); } \
   dump[name] = a == b ? a : "const " + a + " / " + b; }

#define P_INT(X) X(NumDofs) X(NumTimesteps) X(NumViapoints) X(NumJointViapoints) X(NumBaseViapoints) X(NumJointViapoints_Second) X(NumBaseViapoints_Second) \
  X(NumActiveDofs) X(MaxNumTimeIterations) X(NumExtendedActiveDofs) X(NumActiveEndeffectors) X(MaxKinTrajectoryIterations) X(MaxKinConvergenceIterations) X(NumSubsamples) X(KinDynIterations)
#define P_BOOL(X) X(IsTimeHorizonFixed) X(IsFrictionConeLinear) X(DisplayMotion) X(LoadKinematics) X(StoreData) X(UseDefaultSolverSetting) X(UseSecondOrderInverseKinematics)
#define P_DBL(X) X(Gravity) X(TimeStep) X(RobotMass) X(RobotWeight) X(TimeHorizon) X(MinRelHeight) X(MassTimesGravity) X(FrictionCoefficient) X(MaxTimeResidualTolerance) \
  X(MinTimeResidualImprovement) X(WeightArmTorque) X(WeightLegTorque) X(WeightTimePenalty) X(WeightTimeRegularization) X(FloorHeight) X(KinSlacksPenalty) X(KinIntegrationStep) \
  X(LambdaRegularization) X(KinConvergenceTolerance) X(SwingTrajViaZ) X(WeightLinMomentumTracking) X(WeightAngMomentumTracking) X(WeightEndEffContact) X(WeightEndEffTracking) \
  X(PGainEndEffTracking) X(PGainComTracking) X(WeightJointReg) X(PGainOrientationTracking) X(PGainPositionTracking) X(SwingTrajViaZ_Second) X(WeightLinMomentumTracking_Second) \
  X(WeightAngMomentumTracking_Second) X(WeightEndEffContact_Second) X(WeightEndEffTracking_Second) X(PGainEndEffTracking_Second) X(PGainComTracking_Second) X(WeightJointReg_Second) \
  X(DGainEndEffTracking_Second) X(PGainBaseOrientationTracking_Second) X(DGainBaseOrientationTracking_Second) X(PGainJointRegularization_Second) X(DGainJointRegularization_Second)
#define P_STR(X) X(ConfigFile) X(SaveDynamicsFile) X(SaveKinematicsFile) X(DefaultSolverSettingFile)
#define P_IVEC(X) X(ActiveDofs) X(ExtendedActiveDofs)
#define P_VEC(X) X(TimeRange) X(TorqueRange) X(ExternalForce) X(GravityVector) X(CenterOfMassMotion) X(MaxEndeffectorLengths) X(WeightArmForce) X(WeightLegForce) X(WeightArmForceRate) \
  X(WeightLegForceRate) X(WeightCenterOfMass) X(WeightLinearMomentum) X(WeightAngularMomentum) X(WeightLinearMomentumRate) X(WeightAngularMomentumRate) X(WeightFinalLinearMomentum) \
  X(WeightCenterOfMassViapoint) X(WeightFinalAngularMomentum) X(WeightDynamicTrackingCenterOfMass) X(WeightDynamicTrackingLinearMomentum) X(WeightDynamicTrackingAngularMomentum) \
  X(MinJointAngles) X(MaxJointAngles) X(KinematicDefaultJointPositions) X(WeightJointVelocity) X(WeightJointAcceleration) X(WeightKinematicTrackingCenterOfMass) \
  X(WeightKinematicDefaultJointPositions) X(WeightKinematicTrackingLinearMomentum) X(WeightKinematicTrackingAngularMomentum) X(WeightKinematicTrackingBaseOrientation) \
  X(WeightKinematicTrackingLinearMomentumRate) X(WeightKinematicTrackingAngularMomentumRate) X(WeightKinematicTrackingEndeffectorPosition) \
  X(WeightKinematicTrackingNonActiveEndeffectorPosition) X(PGainMomentumTracking_Second)
#define P_ARR(X) X(EndeffectorOffset) X(CenterOfPressureRange)
#define P_CVEC(X) X(Viapoints) X(JointViapoints) X(BaseViapoints) X(JointViapoints_Second) X(BaseViapoints_Second)
#define S_BOOL(X) X(Verbose) X(BnBVerbose)
#define S_INT(X) X(BnBMaxIters) X(EquilibrationIters) X(NumIterRefinementsLinSolve) X(MaxIters) X(WarmStartIters) X(SolverMaxIters) X(NumberRefinementsTrustRegion) \
  X(ColNum) X(NumIter) X(NumRefsLinSolve) X(NumRefsLinSolveAffine) X(NumRefsLinSolveCorrector)
#define S_DBL(X) X(BnBIntegerTol) X(BnBAbsSubOptGap) X(BnBRelSubOptGap) X(FeasibilityTol) X(DualityGapAbsTol) X(DualityGapRelTol) X(FeasibilityTolInacc) X(DualityGapAbsTolInacc) \
  X(DualityGapRelTolInacc) X(LinearSystemAccuracy) X(ErrorReductionFactor) X(StaticRegularization) X(DynamicRegularization) X(DynamicRegularizationThresh) X(SafeGuard) \
  X(MinimumStepLength) X(MaximumStepLength) X(StepLengthScaling) X(MinimumCenteringStep) X(MaximumCenteringStep) X(TrustRegionThreshold) X(SoftConstraintWeightFull) \
  X(SoftConstraintWeightReduced) X(X) X(LB) X(UB) X(Guess) X(Tau) X(Kappa) X(DualCost) X(PrimalCost) X(DualityGap) X(KappaOverTau) X(DualResidual) X(MeritFunction) \
  X(PrimalResidual) X(DualInfeasibility) X(RelativeDualityGap) X(PrimalInfeasibility) X(StepLength) X(AffineStepLength) X(CorrectionStepLength)
#define L_INT(X) X(Verbosity) X(PrecisionDigits) X(LqrMaxIterations) X(BackPassRegulatizationType) X(TimeDimension) X(StateDimension) X(ControlDimension) X(CurrentIteration) X(BackpassDivergeIteration)
#define L_BOOL(X) X(StoreData) X(HasControlLimits) X(UseRungeKuttaIntegration)
#define L_DBL(X) X(CostChangeTolerance) X(DivergenceLimitCheck) X(ControlGradientTolerance) X(BackPassMinRegularization) X(BackPassMaxRegularization) X(MinExpectedCostImprovement) \
  X(BackPassInitialRegularization) X(BackPassMultRegularizationIncr) X(BackPassInitialMultRegularizationIncr) X(TimeStep) X(TimeHorizon) X(Cost) X(CostChange) X(ExpectedCost) X(ControlGradient) X(CurrentRegularization)
#define L_STR(X) X(ConfigFile) X(SaveLqrFile)
#define L_VEC(X) X(InitialState) X(MinControlLimits) X(MaxControlLimits)

static std::string heurName(Heuristic h) { return h == Heuristic::TrustRegion ? "TrustRegion" : h == Heuristic::SoftConstraint ? "SoftConstraint" : h == Heuristic::TimeOptimization ? "TimeOptimization" : "other"; }

// ---- files
static std::string vec(const json& v, bool real) { std::string s; for (auto& x : v) s += (s.empty() ? "" : ", ") + (real ? dec(x.get<long long>()) : std::to_string(x.get<int>())); return "[" + s + "]"; }
static void write(const std::string& path, const std::string& root, const json& op)
{
  std::ofstream f(path); f << root << ":\n";
  const char* eff[4] = {"rf","lf","rh","lh"};
  const json& F = op["F"]; 
  for (auto it = F.begin(); it != F.end(); ++it) {
    std::string k = it.key(), t = op["types"][k]; const json& v = it.value();
    if (t == "int") f << "  " << k << ": " << v.get<int>() << "\n";
    else if (t == "bool") f << "  " << k << ": " << (v.get<int>() ? "true" : "false") << "\n";
    else if (t == "dbl") f << "  " << k << ": " << dec(v.get<long long>()) << "\n";
    else if (t == "str") f << "  " << k << ": " << v.get<std::string>() << "\n";
    else if (t == "ivec") f << "  " << k << ": " << vec(v, false) << "\n";
    else if (t == "user") f << "  " << k << ": {first: " << v[0].get<int>() << ", second: " << v[1].get<int>() << "}\n";
    else if (t[0] == 'v' && t.compare(0, 3, "via") != 0) f << "  " << k << ": " << vec(v, true) << "\n";
    else if (t[0] == 'a') for (int e=0; e<4; e++) f << "  " << k << "_" << eff[e] << ": " << vec(v[e], true) << "\n";
    else { f << "  " << k << ":" << (v.empty() ? " {}" : "") << "\n"; for (int i=0; i<(int)v.size(); i++) f << "    via" << i << ": " << vec(v[i], true) << "\n"; }
  }
}

// ---- assignment
static void put(int& o, const json& v) { o = v.get<int>(); }
static void put(bool& o, const json& v) { o = v.get<int>() != 0; }
static void put(double& o, const json& v) { o = dbl(v.get<long long>()); }
static void put(std::string& o, const json& v) { o = v.get<std::string>(); }
static void putv(Eigen::Ref<Eigen::VectorXd> o, const json& v) { for (int i=0; i<(int)v.size() && i<o.size(); i++) o[i] = dbl(v[i].get<long long>()); }
static void putv(Eigen::Ref<Eigen::VectorXi> o, const json& v) { for (int i=0; i<(int)v.size() && i<o.size(); i++) o[i] = v[i].get<int>(); }
static void putn(Eigen::VectorXd& o, const json& v) { o.resize(v.size()); for (int i=0; i<(int)v.size(); i++) o[i] = dbl(v[i].get<long long>()); }

struct Planner {
  PlannerSetting obj;
  static const char* root() { return "planner_variables"; }
  void load(const std::string& p) { obj.initialize(p); }
  void set(const std::string& e, const json& v) {
#define X(n) if (e == "int:" #n) return put(obj.get(PlannerIntParam_##n), v);
    P_INT(X)
#undef X
#define X(n) if (e == "bool:" #n) return put(obj.get(PlannerBoolParam_##n), v);
    P_BOOL(X)
#undef X
#define X(n) if (e == "dbl:" #n) return put(obj.get(PlannerDoubleParam_##n), v);
    P_DBL(X)
#undef X
#define X(n) if (e == "str:" #n) return put(obj.get(PlannerStringParam_##n), v);
    P_STR(X)
#undef X
#define X(n) if (e == "ivec:" #n) return putv(obj.get(PlannerIntVectorParam_##n), v);
    P_IVEC(X)
#undef X
#define X(n) if (e == "vec:" #n) return putv(obj.get(PlannerVectorParam_##n), v);
    P_VEC(X)
#undef X
#define X(n) if (e == "arr:" #n) { for (int i=0; i<4; i++) putn(obj.get(PlannerArrayParam_##n)[i], v[i]); return; }
    P_ARR(X)
#undef X
#define X(n) if (e == "cvec:" #n) { auto& o = obj.get(PlannerCVectorParam_##n); o.resize(v.size()); for (int i=0; i<(int)v.size(); i++) putn(o[i], v[i]); return; }
    P_CVEC(X)
#undef X
    if (e == "heur") { obj.heuristic() = v == "TrustRegion" ? Heuristic::TrustRegion : v == "SoftConstraint" ? Heuristic::SoftConstraint : Heuristic::TimeOptimization; return; }
    throw std::logic_error("harness: " + e);
  }
  void read(json& dump) {
#define X(n) BOTH("int:" #n, S(O.get(PlannerIntParam_##n)))
    P_INT(X)
#undef X
#define X(n) BOTH("bool:" #n, S(O.get(PlannerBoolParam_##n)))
    P_BOOL(X)
#undef X
#define X(n) BOTH("dbl:" #n, S(O.get(PlannerDoubleParam_##n)))
    P_DBL(X)
#undef X
#define X(n) BOTH("str:" #n, S(O.get(PlannerStringParam_##n)))
    P_STR(X)
#undef X
#define X(n) BOTH("ivec:" #n, SV(O.get(PlannerIntVectorParam_##n)))
    P_IVEC(X)
#undef X
#define X(n) BOTH("vec:" #n, SV(O.get(PlannerVectorParam_##n)))
    P_VEC(X)
#undef X
#define X(n) BOTH("arr:" #n, SVV(O.get(PlannerArrayParam_##n)))
    P_ARR(X)
#undef X
#define X(n) BOTH("cvec:" #n, SVV(O.get(PlannerCVectorParam_##n)))
    P_CVEC(X)
#undef X
    BOTH("heur", heurName(O.heuristic()))
  }
};
struct Solver {
  SolverSetting obj;
  static const char* root() { return "solver_variables"; }
  void load(const std::string& p) { obj.initialize(p); }
  void set(const std::string& e, const json& v) {
#define X(n) if (e == "bool:" #n) return obj.set(SolverBoolParam_##n, v.get<int>() != 0);
    S_BOOL(X)
#undef X
#define X(n) if (e == "int:" #n) return obj.set(SolverIntParam_##n, v.get<int>());
    S_INT(X)
#undef X
#define X(n) if (e == "dbl:" #n) return obj.set(SolverDoubleParam_##n, dbl(v.get<long long>()));
    S_DBL(X)
#undef X
    throw std::logic_error("harness: " + e);
  }
  void read(json& dump) {
#define X(n) BOTH("bool:" #n, S(O.get(SolverBoolParam_##n)))
    S_BOOL(X)
#undef X
#define X(n) BOTH("int:" #n, S(O.get(SolverIntParam_##n)))
    S_INT(X)
#undef X
#define X(n) BOTH("dbl:" #n, S(O.get(SolverDoubleParam_##n)))
    S_DBL(X)
#undef X
  }
};
struct Lqr {
  SolverLqrSetting obj;
  static const char* root() { return "solverlqr_variables"; }
  void load(const std::string& p) { obj.initialize(p); }
  void set(const std::string& e, const json& v) {
#define X(n) if (e == "bool:" #n) return put(obj.get(SolverLqrBoolParam_##n), v);
    L_BOOL(X)
#undef X
#define X(n) if (e == "int:" #n) return put(obj.get(SolverLqrIntParam_##n), v);
    L_INT(X)
#undef X
#define X(n) if (e == "dbl:" #n) return put(obj.get(SolverLqrDoubleParam_##n), v);
    L_DBL(X)
#undef X
#define X(n) if (e == "str:" #n) return put(obj.get(SolverLqrStringParam_##n), v);
    L_STR(X)
#undef X
#define X(n) if (e == "vec:" #n) return putn(obj.get(SolverLqrVectorParam_##n), v);
    L_VEC(X)
#undef X
    if (e == "vec:LineSearchCoeffs") { auto& o = obj.get(SolverLqrVectorParam_LineSearchCoeffs); o.resize(v.size()); for (int i=0; i<(int)v.size(); i++) o[i] = 1e4/v[i].get<double>(); return; }
    throw std::logic_error("harness: " + e);
  }
  static std::string user(const YAML::Node& n) { return n ? "<<" + std::to_string(n["first"].as<int>()) + ", " + std::to_string(n["second"].as<int>()) + ">>" : "<<>>"; }
  static std::string recips(const Eigen::VectorXd& v) { Eigen::VectorXd r(v.size()); for (int i=0; i<v.size(); i++) r[i] = 10/v[i]; return SV(r); }
  void read(json& dump) {
#define X(n) BOTH("bool:" #n, S(O.get(SolverLqrBoolParam_##n)))
    L_BOOL(X)
#undef X
#define X(n) BOTH("int:" #n, S(O.get(SolverLqrIntParam_##n)))
    L_INT(X)
#undef X
#define X(n) BOTH("dbl:" #n, S(O.get(SolverLqrDoubleParam_##n)))
    L_DBL(X)
#undef X
#define X(n) BOTH("str:" #n, S(O.get(SolverLqrStringParam_##n)))
    L_STR(X)
#undef X
#define X(n) BOTH("vec:" #n, SV(O.get(SolverLqrVectorParam_##n)))
    L_VEC(X)
#undef X
    BOTH("vec:LineSearchCoeffs", recips(O.get(SolverLqrVectorParam_LineSearchCoeffs)))
    BOTH("yaml:UserParameters", user(O.get(SolverLqrYamlParam_UserParameters)))
  }
};

template <typename C> static void history(const json& sc)
{
  C c;
  emit(json{{"event","begin"},{"cls",sc["cls"]}});
  for (auto& op : sc["ops"]) {
    std::ostringstream said; bool threw = false;
    std::streambuf *o = std::cout.rdbuf(said.rdbuf()), *e = std::cerr.rdbuf(said.rdbuf());
    try {
      if (op["op"] == "load") {
        std::string path = dir + op["name"].get<std::string>() + ".yaml";
        write(path, C::root(), op);
        struct Rm { std::string p; ~Rm() { unlink(p.c_str()); } } rm{path};
        c.load(path);
      } else c.set(op["e"], op["v"]);
    } catch (const std::logic_error&) { std::cout.rdbuf(o); std::cerr.rdbuf(e); throw; }
    catch (const std::exception& x) { threw = true; }
    std::cout.rdbuf(o); std::cerr.rdbuf(e);
    json dump = json::object(); c.read(dump);
    json lean = op; lean.erase("types");
    emit(json{{"event","op"},{"op",lean},{"threw",threw},{"said",!said.str().empty()},{"dump",dump}});
  }
}

int main(int argc, char** argv)
{
  char tmp[] = "/tmp/vf_settings_XXXXXX";
  if (!mkdtemp(tmp)) return 2;
  dir = std::string(tmp) + "/";
  int rc = run(argc, argv, 20, [](const json& sc) {
    if (sc["cls"] == "planner") history<Planner>(sc);
    else if (sc["cls"] == "solver") history<Solver>(sc);
    else history<Lqr>(sc);
  });
  rmdir(tmp);
  return rc;
}
