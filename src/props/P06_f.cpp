#include "P06_desc.hpp"
PBT(tail_right_unsigned, 1, "more samples than the cache holds, not all equal") { tails<unsigned, right>(s, 50); }
