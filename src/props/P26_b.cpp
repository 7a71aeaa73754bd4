#define KITS_GROUP 2
#include "P26.hpp"
KITS_2(FAULTS)
