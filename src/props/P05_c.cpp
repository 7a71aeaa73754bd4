#include "P05_desc.hpp"
PBT(rolling_float, 2, "more samples than the window holds") { rolling<float>(s, 0); }
