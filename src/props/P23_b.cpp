#define KITS_GROUP 2
#include "P23.hpp"
KITS_2(BOUNDED)
