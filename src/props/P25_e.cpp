#define KITS_GROUP 5
#include "P25.hpp"
KITS_5(UNITS)
