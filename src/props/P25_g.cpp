#define KITS_GROUP 7
#include "P25.hpp"
KITS_7(UNITS)
