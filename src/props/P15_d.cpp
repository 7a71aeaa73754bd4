#define KITS_GROUP 4
#include "P15.hpp"
KITS_4(COPY)
