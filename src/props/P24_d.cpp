#define KITS_GROUP 4
#include "P24.hpp"
KITS_4(APART)
