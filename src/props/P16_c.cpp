#define KITS_GROUP 3
#include "P16.hpp"
KITS_3(ARCH)
