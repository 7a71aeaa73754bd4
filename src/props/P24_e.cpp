#define KITS_GROUP 5
#include "P24.hpp"
KITS_5(APART)
