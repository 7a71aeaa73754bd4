#include "P01_desc.hpp"
PBT(desc_longdouble, 1, "two or more samples, not all equal") { descriptive<long double>(s, 0); }
