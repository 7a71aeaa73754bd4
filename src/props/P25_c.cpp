#define KITS_GROUP 3
#include "P25.hpp"
KITS_3(UNITS)
