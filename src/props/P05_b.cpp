#include "P05_desc.hpp"
PBT(rolling_int, 3, "more samples than the window holds") { rolling<int>(s, 300); }
