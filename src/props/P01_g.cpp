#include "P01_desc.hpp"
PBT(desc_unsigned, 2, "two or more samples, not all equal") { descriptive<unsigned>(s, 15); }
