#include "P07_desc.hpp"
PBT(right_double, 3, "some rank inside the cache, samples differ") { order_stats<double, right>(s, 0); }
