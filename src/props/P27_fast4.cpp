// options: -Og -funsafe-math-optimizations -Daccumulators=accumulators_fast4 -DFAST=fast4
#include "P27_fast.hpp"
