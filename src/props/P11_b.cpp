#include "P11_desc.hpp"
PBT(weighted_cumulative_double, 2, "at least one marker adjustment, more than ten samples compared with the reference model") { cumul_w<double, double>(s, 1000); }
PBT(weighted_cumulative_int, 1, "at least one marker adjustment, more than ten samples compared with the reference model") { cumul_w<int, int>(s, 1000); }
