#include "P08_desc.hpp"
PBT(wleft_double, 3, "weights differ, some rank inside the cache, three or more samples") { worder<double, double, left>(s, 0); }
