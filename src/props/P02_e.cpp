#include "P02_desc.hpp"
PBT(w_int_int, 2, "weights differ and samples differ") { wdescriptive<int, int>(s, 12); }
