#include "P22_names.hpp"
PBT(names_forward, 1, "four or more named arguments in one call, and a push") { body<0>(s); }
