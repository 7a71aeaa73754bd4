#define KITS_GROUP 2
#include "P14.hpp"
KITS_2(PURE)
