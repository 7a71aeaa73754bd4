#include "P02_desc.hpp"
PBT(w_int_double, 2, "weights differ and samples differ") { wdescriptive<int, double>(s, 20); }
