#include "P07_desc.hpp"
PBT(right_float, 1, "some rank inside the cache, samples differ") { order_stats<float, right>(s, 100); }
PBT(left_float, 1, "some rank inside the cache, samples differ") { order_stats<float, left>(s, 100); }
