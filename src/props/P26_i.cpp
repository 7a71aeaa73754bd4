#define KITS_GROUP 9
#include "P26.hpp"
FAULTS(weighted_pot_p)
