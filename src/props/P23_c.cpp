#define KITS_GROUP 3
#include "P23.hpp"
KITS_3(BOUNDED)
