#include "P02_desc.hpp"
PBT(w_float_float, 2, "weights differ and samples differ") { wdescriptive<float, float>(s, 0); }
