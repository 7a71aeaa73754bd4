#define KITS_GROUP 6
#include "P16.hpp"
KITS_6(ARCH)
