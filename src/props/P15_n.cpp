#define KITS_GROUP 10
#include "P15.hpp"
KITS_10(COPY)
