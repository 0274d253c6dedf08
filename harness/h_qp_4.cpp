#include "h_qp.hpp"
template void history<8,4,24>(const json&);
