#include "P12_desc.hpp"
PBT(weighted_density_int, 1, "more samples than the cache holds, weights differ, cached samples not all equal") { weighted_density_model<int, int>(s, 1000); }
PBT(weighted_density_double_int, 1, "more samples than the cache holds, weights differ, cached samples not all equal") { weighted_density_model<double, int>(s, 1000); }
