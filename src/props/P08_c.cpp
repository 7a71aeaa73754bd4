#include "P08_desc.hpp"
PBT(wright_double_int, 1, "weights differ, some rank inside the cache, three or more samples") { worder<double, int, right>(s, 0); }
