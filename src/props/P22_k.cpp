#include "P22_types.hpp"
TYPED(pot_value_right) TYPED(pot_value_left) TYPED(pot_prob_right) TYPED(pot_prob_left) TYPED(weighted_lazy) TYPED(weighted_immediate) TYPED(weighted_covariates)
