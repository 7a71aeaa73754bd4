#define KITS_GROUP 10
#include "P16.hpp"
KITS_10(ARCH)
