#define KITS_GROUP 11
#include "P23.hpp"
KITS_11(BOUNDED)
