#define KITS_GROUP 6
#include "P14.hpp"
KITS_6(PURE)
