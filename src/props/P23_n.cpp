#define KITS_GROUP 10
#include "P23.hpp"
KITS_10(BOUNDED)
