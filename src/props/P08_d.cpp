#include "P08_desc.hpp"
PBT(wleft_int_double, 1, "weights differ, some rank inside the cache, three or more samples") { worder<int, double, left>(s, 1000); }
