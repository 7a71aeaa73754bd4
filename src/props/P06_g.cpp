#include "P06_desc.hpp"
PBT(tail_left_unsigned, 1, "more samples than the cache holds, not all equal") { tails<unsigned, left>(s, 50); }
