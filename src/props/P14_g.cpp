#define KITS_GROUP 7
#include "P14.hpp"
KITS_7(PURE)
