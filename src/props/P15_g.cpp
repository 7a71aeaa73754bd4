#define KITS_GROUP 7
#include "P15.hpp"
KITS_7(COPY)
