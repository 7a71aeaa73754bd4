#define KITS_GROUP 12
#include "P24.hpp"
KITS_12(APART)
