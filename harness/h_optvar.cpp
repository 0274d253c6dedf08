#include <list>
#include <memory>
#include "vfh.hpp"
#include <solver/interface/OptVar.hpp>
using namespace vfh; using solver::OptimizationVariable;
typedef OptimizationVariable::OptVector Vec; typedef OptimizationVariable::OptMatrix Mat;

static Mat pat(const std::string& k, double v, int rows, int cols)
{
  Mat m(rows, cols);
  for (int i=0;i<rows;i++) for (int j=0;j<cols;j++) m(i,j) = k=="s" ? v : k=="v" ? v+7*i : k=="m" ? v+7*i+31*j : 0.0;
  return m;
}
static json mat(const Mat& m)
{
  json a=json::array();
  for (int i=0;i<m.rows();i++) { json r=json::array(); for (int j=0;j<m.cols();j++) r.push_back(num(m(i,j),1)); a.push_back(r); }
  return a;
}
int main(int argc, char** argv)
{
  return run(argc, argv, 20, [](const json& sc) {
    std::vector<std::unique_ptr<OptimizationVariable>> vs; int next=0;
    emit(json{{"event","begin"}});
    for (const json& o : sc["ops"]) {
      std::string op=o["op"];
      if (op=="declare") {
        vs.emplace_back(new OptimizationVariable()); OptimizationVariable& v=*vs.back();
        int R=o["rows"], C=o["cols"]; char ty=std::string(o["type"])[0]; std::string bk=o["bk"], gk=o["gk"];
        double lb=o["lb"], ub=o["ub"], g=o["g"];
        Mat ml=pat(bk,lb,R,C), mu=pat(bk,ub,R,C), mg=pat(gk,g,R,C);
        Vec vl=ml.col(0), vu=mu.col(0);
        if (gk=="n")      { if (bk=="s") v.initialize(ty,R,C,lb,ub,next); else if (bk=="v") v.initialize(ty,R,C,vl,vu,next); else v.initialize(ty,R,C,ml,mu,next); }
        else if (gk=="s") { v.initialize(ty,R,C,lb,ub,next,g); }
        else              { if (bk=="s") v.initialize(ty,R,C,lb,ub,next,mg); else if (bk=="v") v.initialize(ty,R,C,vl,vu,next,mg); else v.initialize(ty,R,C,ml,mu,next,mg); }
      } else {
        OptimizationVariable& v=*vs[int(o["b"])-1];
        if (op=="setguess") v.setGuessValue(pat("m", o["v"], v.getNumRows(), v.getNumCols()));
        else if (op=="freeze") v.constraintIndexToCurrentValue(int(o["j"])-1);
        else if (std::string(o["k"])=="s") v.setAndConstraintIndexToCurrentValue(int(o["j"])-1, double(o["v"]));
        else { Vec w=pat("v", o["v"], v.getNumRows(), 1).col(0); v.setAndConstraintIndexToCurrentValue(int(o["j"])-1, w); }
      }
      json bs=json::array();
      for (auto& p : vs) {
        Mat lb,ub,g,g2,g3; int size; char type; p->getValues(lb,ub,g,size,type); p->getGuessValue(g2);
        g3.resize(p->getNumRows(), p->getNumCols());
        for (int j=0;j<p->getNumCols();j++) { Vec c; p->getGuessValueByCol(j,c); g3.col(j)=c; }
        json ids=json::array();
        for (int r=-2;r<p->getNumRows()+3;r++) { json row=json::array(); for (int c=-2;c<p->getNumCols()+3;c++) row.push_back(p->id(r,c)); ids.push_back(row); }
        bs.push_back(json{{"start",p->getStartIndex()},{"rows",p->getNumRows()},{"cols",p->getNumCols()},{"num",size},{"type",std::string(1,type)},
                          {"lb",mat(lb)},{"ub",mat(ub)},{"guess",mat(g)},{"guess2",mat(g2)},{"guess3",mat(g3)},{"ids",ids}});
      }
      emit(json{{"event","op"},{"op",o},{"next",next},{"blocks",bs}});
    }
  });
}
