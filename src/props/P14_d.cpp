#define KITS_GROUP 4
#include "P14.hpp"
KITS_4(PURE)
