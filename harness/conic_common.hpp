#pragma once
#include "vfh.hpp"
#include <solver/optimizer/IPSolver.hpp>

namespace vfh {
  typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
  inline V vec(const json& j) { V v(j.size()); for (size_t i=0;i<j.size();i++) v[i]=j[i].get<double>(); return v; }
  inline M mat(const json& j, int cols) { M m(j.size(), cols); for (size_t i=0;i<j.size();i++) for (int k=0;k<cols;k++) m(i,k)=j[i][k].get<double>(); return m; }
  inline std::string exitName(solver::ExitCode e)
  {
    using solver::ExitCode;
    switch (e) {
      case ExitCode::Optimal: return "Optimal"; case ExitCode::OptimalInacc: return "OptimalInacc";
      case ExitCode::PrimalInf: return "PrimalInf"; case ExitCode::PrimalInfInacc: return "PrimalInfInacc";
      case ExitCode::DualInf: return "DualInf"; case ExitCode::DualInfInacc: return "DualInfInacc";
      case ExitCode::ReachMaxIters: return "ReachMaxIters"; case ExitCode::NotConverged: return "NotConverged";
      case ExitCode::Indeterminate: return "Indeterminate"; case ExitCode::PrSearchDirection: return "PrSearchDirection";
      case ExitCode::PrSlacksLeaveCone: return "PrSlacksLeaveCone"; case ExitCode::PrProjection: return "PrProjection";
    }
    return "?";
  }
  inline double coneViolation(const V& v, int l, const std::vector<int>& q)
  {
    double w=0.0; int at=l;
    for (int i=0;i<l;i++) w=std::max(w,-v[i]);
    for (int s : q) { w=std::max(w, v.segment(at+1,s-1).norm()-v[at]); at+=s; }
    return w;
  }
  inline double nanmax(double a, double b) { return (std::isnan(a)||std::isnan(b)) ? NAN : std::max(a,b); }
  inline double amax(const V& v) { double m=0; for (int i=0;i<v.size();i++) m=nanmax(m,std::abs(v[i])); return m; }
}
