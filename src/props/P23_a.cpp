#define KITS_GROUP 1
#include "P23.hpp"
KITS_1(BOUNDED)
