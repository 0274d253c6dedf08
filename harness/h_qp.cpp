#include "vfh.hpp"
using namespace vfh;
template <int NV, int NE, int NI> void history(const json& calls);
int main(int argc, char** argv)
{
  return run(argc, argv, 20, [](const json& sc) {
    size_t n=0,e=0,a=0; for (auto& c : sc["calls"]) { n=std::max(n,c["n"].get<size_t>()); e=std::max(e,c["E"].size()); a=std::max(a,c["A"].size()); }
    // the tightest instance the history fits in, or a roomier one
    int k=sc["inst"];
    if (k==0 && n<=2 && e<=1 && a<=3) history<2,1,3>(sc["calls"]);
    else if (k<=1 && e==0 && n<=4 && a<=8) history<4,0,8>(sc["calls"]);
    else if (k<=1 && n<=5 && e<=3 && a<=7) history<5,3,7>(sc["calls"]);
    else if (k<=2 && n<=6 && e<=3 && a<=12) history<6,3,12>(sc["calls"]);
    else history<8,4,24>(sc["calls"]);
  });
}
