#include "P06_desc.hpp"
PBT(tail_left_double, 3, "more samples than the cache holds, not all equal") { tails<double, left>(s, 0); }
