#define KITS_GROUP 11
#include "P26.hpp"
FAULTS(weighted_pot_pr) FAULTS(weighted_extended_quad) FAULTS(weighted_cov_vec)
