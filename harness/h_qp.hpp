#pragma once
// Replays histories of quadratic programs on RtQPSolver objects.
#include "vfh.hpp"
#include <solver/rt_optimizer/RtQPSolver.hpp>
using namespace vfh;
static Eigen::MatrixXd mat(const json& j, int n) { Eigen::MatrixXd m(j.size(), n); for (size_t i=0;i<j.size();i++) for (int k=0;k<n;k++) m(i,k)=j[i][k].get<double>(); return m; }
static Eigen::VectorXd vec(const json& j) { Eigen::VectorXd v(j.size()); for (size_t i=0;i<j.size();i++) v[i]=j[i].get<double>(); return v; }

template <int NV, int NE, int NI> void history(const json& calls)
{
  rt_solver::RtQPSolver<NV,NE,NI> solver;
  rt_solver::RtQPSolverInterface<NV,NE,NI>& q = solver;
  int old=0;
  for (auto& c : calls) {
    int n=c["n"], style=c["style"]; std::string how=c["how"];
    Eigen::MatrixXd H=mat(c["H"],n), E=mat(c["E"],n), A=mat(c["A"],n); Eigen::VectorXd g=vec(c["g"]), e=vec(c["e"]), a=vec(c["a"]);
    double s=std::pow(2.0, c["sc"]["h"].get<int>());
    for (int i=0;i<A.rows();i++) { double r= i<(int)c["sc"]["rows"].size() ? std::pow(2.0,c["sc"]["rows"][i].get<int>()) : 1.0; A.row(i)*=r; a[i]*=r; }
    int from=0;
    if (how=="set") {
      if (NV==n && style==3) q.reset(); else q.reset(n, E.rows(), A.rows());
      q.objectiveQuadPart()=s*H; q.objectiveLinPart()=s*g;
      if (style==0) { q.eqConstraintsMat()=E; q.eqConstraintsVec()=e; }
      else if (style==1) { for (int i=0;i<E.rows();i++) { if (e[i]==0) q.appendEqualities(E.row(i)); else q.appendEqualities(E.row(i), e.segment(i,1)); } }
      else if (E.rows()) q.appendEqualities(E, e);
    } else from=old;
    if (how!="again") {
      if (style==0 && how=="set") { q.ineqConstraintsMat()=A; q.ineqConstraintsVec()=a; }
      else if (style==1) { for (int i=from;i<A.rows();i++) { if (a[i]==0) q.appendInequalities(A.row(i)); else q.appendInequalities(A.row(i), a.segment(i,1)); } }
      else if (A.rows()>from) q.appendInequalities(A.bottomRows(A.rows()-from), a.tail(A.rows()-from));
    }
    old=A.rows();
    bool ok=q.optimize();
    json r{{"event","solve"},{"ok",ok},{"flag",q.isOptimized()},{"x",nums(q.solution(),1e7)}};
    bool kept = q.numVariables()==n && q.numEqConstr()==E.rows() && q.numIneqConstr()==A.rows() && Eigen::MatrixXd(q.objectiveQuadPart())==s*H && Eigen::VectorXd(q.objectiveLinPart())==s*g
      && Eigen::MatrixXd(q.eqConstraintsMat())==E && Eigen::MatrixXd(q.ineqConstraintsMat())==A && Eigen::VectorXd(q.eqConstraintsVec())==e && Eigen::VectorXd(q.ineqConstraintsVec())==a;
    r["kept"]=kept;
    if (ok) {
      r["check"]=q.checkSolution(false, 1e-5, 1e-5);
      double gn=std::max(1.0,(s*g).norm());
      r["cond"]=num(q.computeOptimalityCondition()/gn,1e6);
      Eigen::VectorXd keep=q.solution();
      Eigen::VectorXd off=keep; off[n-1]+=1; off[0]+=0.25; q.solution()=off;
      double ev=E.rows()?(E*off+e).norm():0, iv=A.rows()?(A*off+a).cwiseMax(0).norm():0;
      r["offcheck"]= q.checkSolution(false,1e-5,1e-5) == (ev<=1e-5 && iv<=1e-5);
      r["offcond"]= q.computeOptimalityCondition() >= 0.999*std::max(ev,iv);
      q.solution()=keep;
    }
    emit(r);
  }
}
