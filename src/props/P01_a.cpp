#include "P01_desc.hpp"
PBT(desc_double, 4, "two or more samples, not all equal") { descriptive<double>(s, 0); }
