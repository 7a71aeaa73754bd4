#include "P08_desc.hpp"
PBT(wleft_float, 1, "weights differ, some rank inside the cache, three or more samples") { worder<float, float, left>(s, 1000); }
