#include "h_qp.hpp"
template void history<2,1,3>(const json&);
