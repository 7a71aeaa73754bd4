#define KITS_GROUP 12
#include "P25.hpp"
KITS_12(UNITS)
