#define KITS_GROUP 6
#include "P25.hpp"
KITS_6(UNITS)
