#include "h_qp.hpp"
template void history<4,0,8>(const json&);
