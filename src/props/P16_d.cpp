#define KITS_GROUP 4
#include "P16.hpp"
KITS_4(ARCH)
