#define KITS_GROUP 5
#include "P14.hpp"
KITS_5(PURE)
