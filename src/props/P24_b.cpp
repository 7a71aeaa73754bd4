#define KITS_GROUP 2
#include "P24.hpp"
KITS_2(APART)
