#include "P02_desc.hpp"
PBT(w_double_double, 4, "weights differ and samples differ") { wdescriptive<double, double>(s, 0); }
