#include "P07_desc.hpp"
PBT(right_int, 1.5, "some rank inside the cache, samples differ") { order_stats<int, right>(s, 100); }
PBT(left_int, 1.5, "some rank inside the cache, samples differ") { order_stats<int, left>(s, 100); }
