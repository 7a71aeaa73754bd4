#define KITS_GROUP 7
#include "P26.hpp"
KITS_7(FAULTS)
