#define KITS_GROUP 9
#include "P25.hpp"
KITS_9(UNITS)
