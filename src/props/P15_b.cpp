#define KITS_GROUP 2
#include "P15.hpp"
KITS_2(COPY)
