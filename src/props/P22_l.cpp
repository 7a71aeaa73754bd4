#include "P22_types.hpp"
TYPED(weighted_tail_r) TYPED(weighted_psquare) TYPED(weighted_extended) TYPED(weighted_cumul) TYPED(weighted_dens) TYPED(weighted_pot_v) TYPED(weighted_pot_p) TYPED(weighted_pot_vl) TYPED(weighted_pot_pr) TYPED(weighted_extended_quad)
