#include "h_qp.hpp"
template void history<5,3,7>(const json&);
