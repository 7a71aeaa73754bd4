#define KITS_GROUP 9
#include "P23.hpp"
KITS_9(BOUNDED)
