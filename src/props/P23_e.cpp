#define KITS_GROUP 5
#include "P23.hpp"
KITS_5(BOUNDED)
