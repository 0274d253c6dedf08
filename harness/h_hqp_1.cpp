#include "h_hqp.hpp"
template void solverHistory<16,6,8>(const json&);
