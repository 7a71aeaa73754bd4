#include "P05_desc.hpp"
PBT(rolling_unsigned, 2, "more samples than the window holds") { rolling<unsigned>(s, 300); }
