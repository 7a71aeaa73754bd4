#define KITS_GROUP 12
#include "P15.hpp"
KITS_12(COPY)
