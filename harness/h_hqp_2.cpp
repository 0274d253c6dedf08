#include "h_hqp.hpp"
template void modelHistory<16,6,6>(const json&);
