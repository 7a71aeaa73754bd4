#include "P05_desc.hpp"
PBT(rolling_double, 4, "more samples than the window holds") { rolling<double>(s, 0); }
