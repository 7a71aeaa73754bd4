#define KITS_GROUP 11
#include "P15.hpp"
KITS_11(COPY)
