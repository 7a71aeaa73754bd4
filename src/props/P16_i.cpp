#define KITS_GROUP 9
#include "P16.hpp"
KITS_9(ARCH)
