// options: -O1 -ffast-math -Daccumulators=accumulators_fast1 -DFAST=fast1
#include "P27_fast.hpp"
