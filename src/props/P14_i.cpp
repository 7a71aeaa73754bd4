#define KITS_GROUP 9
#include "P14.hpp"
KITS_9(PURE)
