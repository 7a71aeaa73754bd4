#define KITS_GROUP 3
#include "P26.hpp"
KITS_3(FAULTS)
