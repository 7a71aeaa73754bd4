#define KITS_GROUP 7
#include "P16.hpp"
KITS_7(ARCH)
