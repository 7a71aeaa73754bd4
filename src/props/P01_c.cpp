#include "P01_desc.hpp"
PBT(desc_int, 3, "two or more samples, not all equal") { descriptive<int>(s, 20); }
