#define KITS_GROUP 6
#include "P15.hpp"
KITS_6(COPY)
