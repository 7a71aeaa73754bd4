#define KITS_GROUP 5
#include "P16.hpp"
KITS_5(ARCH)
