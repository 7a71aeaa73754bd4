#define KITS_GROUP 12
#include "P23.hpp"
KITS_12(BOUNDED)
