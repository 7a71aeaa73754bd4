#define KITS_GROUP 1
#include "P26.hpp"
FAULTS(covariates_vec)
