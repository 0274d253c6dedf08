#include "vfh.hpp"
using namespace vfh;
template <int AR, int NV, int BR> void solverHistory(const json& probs);
template <int MI, int ME, int NV> void modelHistory(const json& probs);
int main(int argc, char** argv)
{
  return run(argc, argv, 20, [](const json& sc) {
    size_t n=0,e=0,a=0;
    for (auto& p : sc["probs"]) { n=std::max(n,p["n"].get<size_t>()); size_t t=0; for (auto& r : p["ranks"]) { e=std::max(e,r["B"].size()); t+=r["A"].size(); } a=std::max(a,t); }
    int k=sc["inst"];
    if (k>=2) modelHistory<16,6,6>(sc["probs"]);
    else if (n<=3 && e<=4 && a<=6) solverHistory<6,3,4>(sc["probs"]);
    else solverHistory<16,6,8>(sc["probs"]);
  });
}
