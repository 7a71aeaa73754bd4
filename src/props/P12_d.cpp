#include "P12_desc.hpp"
PBT(density_unsigned, 1, "more samples than the cache holds, cached samples not all equal") { density_model<unsigned>(s, 1000); }
PBT(weighted_density_unsigned, 1, "more samples than the cache holds, cached samples not all equal") { weighted_density_model<unsigned, unsigned>(s, 1000); }
