#define KITS_GROUP 6
#include "P24.hpp"
KITS_6(APART)
