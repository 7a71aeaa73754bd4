#include "P02_desc.hpp"
PBT(w_unsigned_unsigned, 1, "weights differ and samples differ") { wdescriptive<unsigned, unsigned>(s, 12); }
