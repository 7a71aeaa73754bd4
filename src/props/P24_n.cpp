#define KITS_GROUP 10
#include "P24.hpp"
KITS_10(APART)
