#include "h_qp.hpp"
template void history<6,3,12>(const json&);
