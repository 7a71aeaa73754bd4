#include "P06_desc.hpp"
PBT(tail_left_int, 2, "more samples than the cache holds, not all equal") { tails<int, left>(s, 50); }
