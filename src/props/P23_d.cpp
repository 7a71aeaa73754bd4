#define KITS_GROUP 4
#include "P23.hpp"
KITS_4(BOUNDED)
