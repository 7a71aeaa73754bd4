#define KITS_GROUP 11
#include "P25.hpp"
template<> struct weight_units<kits::weighted_extended_quad> : std::false_type {};
UNITS(weighted_pot_vl) UNITS(weighted_pot_pr) UNITS(weighted_extended_quad) UNITS(weighted_cov_vec)
