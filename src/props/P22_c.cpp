#include "P22_names.hpp"
PBT(names_middle, 1, "four or more named arguments in one call, and a push") { body<2>(s); }
