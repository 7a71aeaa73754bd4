#include "P12_desc.hpp"
PBT(density_float, 1, "more samples than the cache holds, cached samples not all equal") { density_model<float>(s, 1000); }
PBT(weighted_density_double, 3, "more samples than the cache holds, weights differ, cached samples not all equal") { weighted_density_model<double, double>(s, 1000); }
