#include "P07_desc.hpp"
PBT(right_unsigned, 1, "some rank inside the cache, samples differ") { order_stats<unsigned, right>(s, 100); }
PBT(left_unsigned, 1, "some rank inside the cache, samples differ") { order_stats<unsigned, left>(s, 100); }
