#include "P01_desc.hpp"
PBT(desc_longlong, 2, "two or more samples, not all equal") { descriptive<long long>(s, 2000); }
