#define KITS_GROUP 8
#include "P26.hpp"
FAULTS(weighted_extended) FAULTS(weighted_cumul) FAULTS(weighted_dens)
