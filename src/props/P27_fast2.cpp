// options: -O2 -ffast-math -Daccumulators=accumulators_fast2 -DFAST=fast2
#include "P27_fast.hpp"
