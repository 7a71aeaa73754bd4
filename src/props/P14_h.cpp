#define KITS_GROUP 8
#include "P14.hpp"
KITS_8(PURE)
