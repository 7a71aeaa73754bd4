#include "P08_desc.hpp"
PBT(wright_double, 3, "weights differ, some rank inside the cache, three or more samples") { worder<double, double, right>(s, 0); }
