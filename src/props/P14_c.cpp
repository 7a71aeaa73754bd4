#define KITS_GROUP 3
#include "P14.hpp"
KITS_3(PURE)
