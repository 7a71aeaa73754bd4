#define KITS_GROUP 12
#include "P26.hpp"
KITS_12(FAULTS)
