#include "P08_desc.hpp"
PBT(wright_unsigned_int, 1, "weights differ, some rank inside the cache, three or more samples") { worder<unsigned, int, right>(s, 1000); }
