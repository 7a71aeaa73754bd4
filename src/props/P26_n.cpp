#define KITS_GROUP 10
#include "P26.hpp"
FAULTS(int_tail) FAULTS(unsigned_rolling) FAULTS(int_extended) FAULTS(float_dens) FAULTS(vector_sums) FAULTS(rolling_vectors) FAULTS(rolling_complex)
