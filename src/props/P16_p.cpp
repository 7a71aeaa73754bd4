#define KITS_GROUP 12
#include "P16.hpp"
KITS_12(ARCH)
