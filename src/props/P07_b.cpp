#include "P07_desc.hpp"
PBT(left_double, 3, "some rank inside the cache, samples differ") { order_stats<double, left>(s, 0); }
