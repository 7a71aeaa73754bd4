#define KITS_GROUP 9
#include "P15.hpp"
KITS_9(COPY)
