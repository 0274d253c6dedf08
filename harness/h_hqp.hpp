#pragma once
// Replays histories of hierarchies on RtHQPSolver objects and on RtModel objects.
#include "vfh.hpp"
#include <solver/interface/Solver.hpp>
using namespace vfh;
inline Eigen::MatrixXd hmat(const json& j, int n) { Eigen::MatrixXd m(j.size(), n); for (size_t i=0;i<j.size();i++) for (int k=0;k<n;k++) m(i,k)=j[i][k].get<double>(); return m; }
inline Eigen::VectorXd hvec(const json& j) { Eigen::VectorXd v(j.size()); for (size_t i=0;i<j.size();i++) v[i]=j[i].get<double>(); return v; }
inline json residuals(const json& p, const Eigen::VectorXd& x)
{
  json out=json::array(); int n=p["n"];
  for (auto& r : p["ranks"]) {
    Eigen::MatrixXd B=hmat(r["B"],n), A=hmat(r["A"],n);
    out.push_back(json{{"r",nums(Eigen::VectorXd(B*x+hvec(r["b"])),1e6)},{"v",nums(Eigen::VectorXd((A*x+hvec(r["a"])).cwiseMax(0)),1e6)}});
  }
  return out;
}
template <int AR, int NV, int BR> void solverHistory(const json& probs)
{
  rt_solver::RtHQPSolver<AR,NV,BR> s{YAML::Node()};
  bool first=true;
  for (auto& p : probs) {
    int n=p["n"];
    if (first || p["init"].get<bool>()) s.initialize();
    first=false;
    s.reset(n);
    bool ok=true, kept=true;
    for (auto& r : p["ranks"]) {
      Eigen::MatrixXd B=hmat(r["B"],n), A=hmat(r["A"],n); Eigen::VectorXd b=hvec(r["b"]), a=hvec(r["a"]);
      Eigen::MatrixXd B0=B, A0=A;
      ok &= s.solveNextTask(B,b,A,a);
      kept &= B==B0 && A==A0 && s.nullspaceDimension()>=0 && s.nullspaceDimension()<=n;
    }
    Eigen::VectorXd x=s.solution();
    bool size = x.size()==n; if (!size) x=Eigen::VectorXd::Constant(n,NAN);
    emit(json{{"event","solved"},{"ok",ok},{"size",size},{"x",nums(x,1e3)},{"kept",kept},{"ranks",residuals(p,x)}});
  }
}
template <int MI, int ME, int NV> struct Comp : rt_solver::RtHQPCost {
  typedef rt_solver::RtModel<MI,ME,NV> M; M* m; bool eq; int from, upd=0;
  typename rt_solver::RtVector<8>::d vec; typename rt_solver::RtMatrix<8,NV>::d mat; typename rt_solver::RtVector<8>::i ranks;
  void updateAfterSolutionFound() { upd++; }
  int maxRank() const { return ranks.maxCoeff(); }
  void addCostToHierarchy(int rank) const { m->template appendRowsOfRank<8>(rank, ranks, mat, vec, eq, from); }
};
template <int MI, int ME, int NV> void modelHistory(const json& probs)
{
  typedef rt_solver::RtModel<MI,ME,NV> M;
  M m{YAML::Node()};
  bool first=true;
  for (auto& p : probs) {
    int n=p["n"], style=p["style"]; bool drop=p["drop"];
    // columns that hold the n variables
    std::vector<int> perm, cols; for (int i=0;i<NV;i++) perm.push_back(i);
    int c=p["cols"]; for (int i=NV;i>1;i--) { std::swap(perm[i-1],perm[c%i]); c/=i; }
    for (int i=0;i<n;i++) cols.push_back(perm[i]);
    std::sort(cols.begin(), cols.end());
    for (int i=0;i<NV;i++) m.full_to_opt_variable_index_[i] = drop ? -1 : i;
    if (drop) for (int i=0;i<n;i++) m.full_to_opt_variable_index_[cols[i]]=i;
    m.num_variables_optimized_ = drop ? n : NV;
    m.clean(); m.subCostComposers().clear();
    std::vector<std::shared_ptr<Comp<MI,ME,NV>>> comps;
    int k=0;
    for (auto& r : p["ranks"]) {
      Eigen::MatrixXd B=hmat(r["B"],n), A=hmat(r["A"],n); Eigen::VectorXd b=hvec(r["b"]), a=hvec(r["a"]);
      for (int t=0;t<2;t++) {
        Eigen::MatrixXd& X=t?A:B; Eigen::VectorXd& y=t?a:b;
        if (X.rows() && ((style+k+t)%4==3) && X.rows()<=8) {
          auto q=std::make_shared<Comp<MI,ME,NV>>(); q->m=&m; q->eq=!t; q->from=cols[0]; int wd=cols[n-1]-cols[0]+1;
          q->mat.resize(X.rows(),wd); q->mat.setZero(); for (int i=0;i<n;i++) q->mat.col(cols[i]-cols[0])=X.col(i);
          q->vec=y; q->ranks.resize(X.rows()); q->ranks.setConstant(k);
          comps.push_back(q); m.subCostComposers().push_back(q.get());
        } else for (int i=0;i<X.rows();i++) {
          solver::LinExpr e; for (int j=0;j<n;j++) if (X(i,j)!=0) e += m.getVar(cols[j])*X(i,j);
          if (drop && n<NV) for (int q=0;q<NV;q++) if (std::find(cols.begin(),cols.end(),q)==cols.end()) { e += m.getVar(q)*7.0; break; }
          if (!t) m.addLinConstr(e, "=", -y[i], k);
          else if ((style+i)%2) m.addLinConstr(e+y[i], "<", 0.0, k);
          else m.addLinConstr(-e, ">", y[i], k);
        }
      }
      k++;
    }
    if (first || p["init"].get<bool>()) m.initialize();
    first=false;
    bool ok=m.solve(), kept=ok==m.is_solution_valid_;
    for (auto& q : comps) kept &= q->upd==1;
    Eigen::VectorXd x=m.hqp_solver_.solution(), z=Eigen::VectorXd::Constant(n,NAN);
    bool size = x.size()==(drop?n:NV);
    if (size) for (int i=0;i<n;i++) z[i]= drop ? x[i] : x[cols[i]];
    emit(json{{"event","solved"},{"ok",ok},{"size",size},{"x",nums(z,1e3)},{"kept",kept},{"ranks",residuals(p,z)}});
  }
}
