#include "P02_desc.hpp"
PBT(w_double_unsigned, 1, "weights differ and samples differ") { wdescriptive<double, unsigned>(s, 0); }
