#define KITS_GROUP 2
#include "P25.hpp"
UNITS(rolling_lazy) UNITS(rolling_immediate)
