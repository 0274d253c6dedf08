// Orientation utilities of the planner on orientations with known differences (spec/RotationTrace.tla).
#include <Eigen/Dense>
#include <momentumopt/utilities/OrientationUtils.hpp>
#include "vfh.hpp"
using vfh::json; using vfh::nums; using vfh::num;
typedef Eigen::Quaternion<double> Q;
typedef Eigen::Vector3d V;
static const double S = 1e7;

// internal helpers, judged when the library still has them under these names
namespace momentumopt {
  __attribute__((weak)) Eigen::Matrix3d skewMatrix(const Eigen::Vector3d&);
  __attribute__((weak)) Eigen::Vector3d logarithmicMap(const Eigen::Quaternion<double>&);
  __attribute__((weak)) Eigen::Quaternion<double> exponentialMap(const Eigen::Vector3d&);
  __attribute__((weak)) Eigen::Matrix4d toQuaternionMatrix(const Eigen::Quaternion<double>&, bool);
  __attribute__((weak)) Eigen::Vector3d toAngularVelocity(const Eigen::Vector3d&, const Eigen::Vector3d&, bool);
  __attribute__((weak)) Eigen::Vector3d fromAngularVelocity(const Eigen::Vector3d&, const Eigen::Vector3d&, bool);
}
using namespace momentumopt;

static json mat(const Q& q)
{
  double w=q.w(), x=q.x(), y=q.y(), z=q.z(), n=w*w+x*x+y*y+z*z;
  return json{ nums(V(w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y))/n, S),
               nums(V(2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x))/n, S),
               nums(V(2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z)/n, S) };
}
static json orient(const Q& q) { return json{{"m", mat(q)}, {"n", num(q.norm(), S)}}; }
static V vec(const json& j, double s=1.0) { return V(j[0].get<double>(), j[1].get<double>(), j[2].get<double>())/s; }

static void body(const json& sc)
{
  auto quat = [](const json& q, int sign, int scale) {
    Q r(q[0].get<double>(), q[1].get<double>(), q[2].get<double>(), q[3].get<double>());
    r.coeffs() *= sign/r.norm();
    if (scale) r.coeffs() *= 0.1*scale;
    return r;
  };
  int scale = sc["scale"];
  Q q1 = quat(sc["q1"], sc["s1"], scale), q2 = quat(sc["q2"], sc["s2"], scale ? 10-scale : 0), d = quat(sc["d"], 1, 0);
  double dt = sc["dt"]["n"].get<double>()/sc["dt"]["d"].get<double>();
  V om = vec(sc["om"], S)/dt, rv = vec(sc["rv"], S), u = vec(sc["u"]), v = vec(sc["v"]), e = vec(sc["e"]), a = vec(sc["a"]);
  json r{{"event","cpp"}};
  r["err"] = nums(orientationError(q2, q1), S);
  r["same"] = nums(orientationError(q1, q1), S);
  r["req"] = nums((requiredAngularVelocity(q2, q1, dt)*dt).eval(), S);
  r["reqw"] = nums((requiredAngularVelocity(q2, q1, dt, false)*dt).eval(), S);
  r["reqb"] = nums((requiredAngularVelocity(q2, q1, dt, true)*dt).eval(), S);
  r["int"] = orient(integrateAngularVelocity(q1, om, dt));
  r["intw"] = orient(integrateAngularVelocity(q1, om, dt, false));
  r["intb"] = orient(integrateAngularVelocity(q1, om, dt, true));
  r["rtw"] = orient(integrateAngularVelocity(q1, requiredAngularVelocity(q2, q1, dt, false), dt, false));
  r["rtb"] = orient(integrateAngularVelocity(q1, requiredAngularVelocity(q2, q1, dt, true), dt, true));
  r["rest"] = orient(integrateAngularVelocity(q1, V::Zero(), dt, sc["body"].get<bool>()));
  r["unit"] = scale == 0;
  json h = json::object();
  if (skewMatrix) h["skew"] = nums((skewMatrix(u)*v).eval(), 1);
  if (logarithmicMap) { h["log"] = nums(logarithmicMap(d), S); Q dn = d; dn.coeffs() *= -1; h["logn"] = nums(logarithmicMap(dn), S); }
  if (exponentialMap) h["exp"] = orient(exponentialMap(rv));
  if (toQuaternionMatrix) {
    Q p(sc["q2"][0].get<double>(), sc["q2"][1].get<double>(), sc["q2"][2].get<double>(), sc["q2"][3].get<double>());
    Q o(sc["q1"][0].get<double>(), sc["q1"][1].get<double>(), sc["q1"][2].get<double>(), sc["q1"][3].get<double>());
    Eigen::Vector4d pv(p.w(), p.x(), p.y(), p.z());
    h["left"] = nums((toQuaternionMatrix(o, false)*pv).eval(), 1);
    h["right"] = nums((toQuaternionMatrix(o, true)*pv).eval(), 1);
  }
  // rates along the rotation vector and across it
  if (toAngularVelocity) {
    h["twa"] = nums(toAngularVelocity(rv, a, false), 1e6); h["twe"] = nums(toAngularVelocity(rv, e, false), 1e6);
    h["tba"] = nums(toAngularVelocity(rv, a, true), 1e6);  h["tbe"] = nums(toAngularVelocity(rv, e, true), 1e6);
    if (fromAngularVelocity) {
      h["fw"] = nums(fromAngularVelocity(rv, toAngularVelocity(rv, u, false), false), 1e6);
      h["fb"] = nums(fromAngularVelocity(rv, toAngularVelocity(rv, u, true), true), 1e6);
    }
  }
  r["h"] = h;
  vfh::emit(r);
}
int main(int argc, char** argv) { return vfh::run(argc, argv, 20, body); }
