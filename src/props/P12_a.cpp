#include "P12_desc.hpp"
PBT(density_double, 3, "more samples than the cache holds, cached samples not all equal") { density_model<double>(s, 1000); }
PBT(density_int, 1, "more samples than the cache holds, cached samples not all equal") { density_model<int>(s, 1000); }
