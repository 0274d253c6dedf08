#include "h_hqp.hpp"
template void solverHistory<6,3,4>(const json&);
