#include "P02_desc.hpp"
PBT(w_double_int, 2, "weights differ and samples differ") { wdescriptive<double, int>(s, 0); }
