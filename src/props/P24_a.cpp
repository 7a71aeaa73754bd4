#define KITS_GROUP 1
#include "P24.hpp"
KITS_1(APART)
