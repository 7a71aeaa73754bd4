#define KITS_GROUP 3
#include "P15.hpp"
KITS_3(COPY)
