#define KITS_GROUP 3
#include "P24.hpp"
KITS_3(APART)
