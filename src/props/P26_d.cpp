#define KITS_GROUP 4
#include "P26.hpp"
FAULTS(extended) FAULTS(extended_quad) FAULTS(cumul) FAULTS(dens)
