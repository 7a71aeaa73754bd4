#define KITS_GROUP 8
#include "P23.hpp"
KITS_8(BOUNDED)
