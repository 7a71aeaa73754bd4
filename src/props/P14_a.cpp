#define KITS_GROUP 1
#include "P14.hpp"
KITS_1(PURE)
