#include "P22_types.hpp"
TYPED(basic_lazy) TYPED(basic_immediate) TYPED(covariates) TYPED(rolling_lazy) TYPED(rolling_immediate)
