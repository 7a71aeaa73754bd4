#define KITS_GROUP 2
#include "P16.hpp"
KITS_2(ARCH)
