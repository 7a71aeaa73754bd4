#include "P02_desc.hpp"
PBT(w_unsigned_double, 1, "weights differ and samples differ") { wdescriptive<unsigned, double>(s, 20); }
