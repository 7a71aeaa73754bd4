// options: -O3 -ffast-math -Daccumulators=accumulators_fast3 -DFAST=fast3
#include "P27_fast.hpp"
