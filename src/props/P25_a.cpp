#define KITS_GROUP 1
#include "P25.hpp"
UNITS(basic_lazy) UNITS(basic_immediate) UNITS(covariates) UNITS(covariates_vec)
