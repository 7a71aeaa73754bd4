#define KITS_GROUP 7
#include "P24.hpp"
KITS_7(APART)
