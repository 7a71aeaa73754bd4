#define KITS_GROUP 8
#include "P24.hpp"
KITS_8(APART)
