#define KITS_GROUP 8
#include "P16.hpp"
KITS_8(ARCH)
