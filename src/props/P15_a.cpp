#define KITS_GROUP 1
#include "P15.hpp"
KITS_1(COPY)
