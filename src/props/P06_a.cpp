#include "P06_desc.hpp"
PBT(tail_right_double, 3, "more samples than the cache holds, not all equal") { tails<double, right>(s, 0); }
