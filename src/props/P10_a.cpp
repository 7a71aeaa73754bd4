#include "P10_desc.hpp"
PBT(extended_double, 3, "at least one marker adjustment, more than ten samples compared with the reference model") { extended<double, double, false>(s, 1000); }
PBT(extended_int, 1, "at least one marker adjustment, more than ten samples compared with the reference model") { extended<int, int, false>(s, 1000); }
