#include "P01_desc.hpp"
PBT(desc_float, 3, "two or more samples, not all equal") { descriptive<float>(s, 0); }
