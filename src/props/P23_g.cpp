#define KITS_GROUP 7
#include "P23.hpp"
KITS_7(BOUNDED)
