#define KITS_GROUP 11
#include "P16.hpp"
KITS_11(ARCH)
