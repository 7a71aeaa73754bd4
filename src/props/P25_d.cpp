#define KITS_GROUP 4
#include "P25.hpp"
KITS_4(UNITS)
