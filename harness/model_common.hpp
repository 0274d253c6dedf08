// Builds programs through the modelling interface from expression trees; the trees are also
// evaluated here in plain doubles, independently of the expression classes under test.
#pragma once
#include "conic_common.hpp"
#include <solver/interface/Model.hpp>
namespace vfh {
  using namespace solver;
  typedef std::vector<Var> Vars;
  inline LinExpr build(const json& t, const Vars& v)
  {
    std::string o=t[0];
    auto V=[&](int i){ return v[t[i].get<int>()-1]; };
    auto K=[&](int i){ return t[i].get<double>(); };
    auto E=[&](int i){ return build(t[i], v); };
    if (o=="c") return LinExpr(K(1));
    if (o=="v") return LinExpr(V(1));
    if (o=="+v") return +V(1);
    if (o=="-v") return -V(1);
    if (o=="v*k") return V(1)*K(2);
    if (o=="k*v") return K(2)*V(1);
    if (o=="v/h") return V(1)/0.5;
    if (o=="v+k") return V(1)+K(2);
    if (o=="k+v") return K(2)+V(1);
    if (o=="v-k") return V(1)-K(2);
    if (o=="k-v") return K(2)-V(1);
    if (o=="v+v") return V(1)+V(2);
    if (o=="v-v") return V(1)-V(2);
    if (o=="+") return E(1)+E(2);
    if (o=="-") return E(1)-E(2);
    if (o=="+=") { LinExpr e=E(1); e+=E(2); return e; }
    if (o=="-=") { LinExpr e=E(1); e-=E(2); return e; }
    if (o=="e+v") return E(1)+V(2);
    if (o=="e-v") return E(1)-V(2);
    if (o=="v-e") return V(2)-E(1);
    if (o=="k+e") return K(2)+E(1);
    if (o=="e+k") return E(1)+K(2);
    if (o=="+=k") { LinExpr e=E(1); e+=K(2); return e; }
    if (o=="e-k") return E(1)-K(2);
    if (o=="-=k") { LinExpr e=E(1); e-=K(2); return e; }
    if (o=="k-e") return K(2)-E(1);
    if (o=="k*e") return K(2)*E(1);
    if (o=="e*k") return E(1)*K(2);
    if (o=="*=k") { LinExpr e=E(1); e*=K(2); return e; }
    if (o=="/h") return E(1)/0.5;
    if (o=="/=h") { LinExpr e=E(1); e/=0.5; return e; }
    if (o=="/2") return E(1)/2.0;
    if (o=="/=2") { LinExpr e=E(1); e/=2.0; return e; }
    if (o=="-e") return -E(1);
    if (o=="+e") return +E(1);
    throw std::runtime_error("unknown operator "+o);
  }
  inline double value(const json& t, const std::vector<double>& x)
  {
    std::string o=t[0];
    auto V=[&](int i){ return x[t[i].get<int>()-1]; };
    auto K=[&](int i){ return t[i].get<double>(); };
    auto E=[&](int i){ return value(t[i], x); };
    if (o=="c") return K(1);
    if (o=="v"||o=="+v") return V(1);
    if (o=="-v") return -V(1);
    if (o=="v*k"||o=="k*v") return V(1)*K(2);
    if (o=="v/h") return 2*V(1);
    if (o=="v+k"||o=="k+v") return V(1)+K(2);
    if (o=="v-k") return V(1)-K(2);
    if (o=="k-v") return K(2)-V(1);
    if (o=="v+v") return V(1)+V(2);
    if (o=="v-v") return V(1)-V(2);
    if (o=="+"||o=="+=") return E(1)+E(2);
    if (o=="-"||o=="-=") return E(1)-E(2);
    if (o=="e+v") return E(1)+V(2);
    if (o=="e-v") return E(1)-V(2);
    if (o=="v-e") return V(2)-E(1);
    if (o=="k+e"||o=="e+k"||o=="+=k") return E(1)+K(2);
    if (o=="e-k"||o=="-=k") return E(1)-K(2);
    if (o=="k-e") return K(2)-E(1);
    if (o=="k*e"||o=="e*k"||o=="*=k") return K(2)*E(1);
    if (o=="/h"||o=="/=h") return 2*E(1);
    if (o=="/2"||o=="/=2") return E(1)/2;
    if (o=="-e") return -E(1);
    if (o=="+e") return E(1);
    throw std::runtime_error("unknown operator "+o);
  }
  inline DCPQuadExpr dcp(const json& o, const Vars& v)
  {
    DCPQuadExpr q;
    for (auto& t : o["ts"]) q.addQuaTerm(t[0].get<double>(), build(t[1], v));
    q.addLinTerm(build(o["lhs"], v));
    return q;
  }
  // amount by which a constraint is violated / value of an objective
  inline double measure(const json& o, const std::vector<double>& x)
  {
    double f=value(o["lhs"],x), q=0, s=0; std::string op=o["op"];
    for (auto& t : o["ts"]) { double e=value(t[1],x); q+=t[0].get<double>()*e*e; s+=e*e; }
    if (op=="obj") return q+f+value(o["rhs"],x);
    f-=value(o["rhs"],x);
    if (op=="lin") return o["s"]=="=" ? std::abs(f) : (o["s"]==">" ? -f : f);
    if (op=="quad") return q+f;
    return std::sqrt(s)+f;
  }
}
