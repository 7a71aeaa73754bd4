#include "P22_types.hpp"
TYPED(tail_right) TYPED(tail_left) TYPED(tail_variates_left) TYPED(psquare) TYPED(extended) TYPED(extended_quad) TYPED(cumul) TYPED(dens)
