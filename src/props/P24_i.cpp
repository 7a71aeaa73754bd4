#define KITS_GROUP 9
#include "P24.hpp"
KITS_9(APART)
