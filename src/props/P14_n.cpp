#define KITS_GROUP 10
#include "P14.hpp"
KITS_10(PURE)
