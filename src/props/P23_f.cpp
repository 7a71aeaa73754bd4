#define KITS_GROUP 6
#include "P23.hpp"
KITS_6(BOUNDED)
