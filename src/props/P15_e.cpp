#define KITS_GROUP 5
#include "P15.hpp"
KITS_5(COPY)
