#include "P10_desc.hpp"
PBT(weighted_extended_double, 3, "at least one marker adjustment, more than ten samples compared with the reference model") { extended<double, double, true>(s, 1000); }
PBT(weighted_extended_int, 1, "at least one marker adjustment, more than ten samples compared with the reference model") { extended<int, int, true>(s, 1000); }
