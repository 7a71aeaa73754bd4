#define KITS_GROUP 8
#include "P15.hpp"
KITS_8(COPY)
