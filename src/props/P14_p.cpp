#define KITS_GROUP 12
#include "P14.hpp"
KITS_12(PURE)
