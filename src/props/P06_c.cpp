#include "P06_desc.hpp"
PBT(tail_right_int, 2, "more samples than the cache holds, not all equal") { tails<int, right>(s, 50); }
