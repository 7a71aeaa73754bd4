#define KITS_GROUP 11
#include "P14.hpp"
KITS_11(PURE)
