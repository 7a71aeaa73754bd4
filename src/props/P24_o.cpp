#define KITS_GROUP 11
#include "P24.hpp"
KITS_11(APART)
