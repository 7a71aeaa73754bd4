#define KITS_GROUP 1
#include "P16.hpp"
KITS_1(ARCH)
