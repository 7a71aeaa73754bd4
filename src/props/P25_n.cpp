#define KITS_GROUP 10
#include "P25.hpp"
template<> struct exponents<kits::float_dens> { static int x() { return 30; } static int c() { return 0; } static int w() { return 0; } };
template<> struct mixed<kits::vector_sums> : std::true_type {}; template<> struct mixed<kits::rolling_vectors> : std::true_type {}; template<> struct mixed<kits::rolling_complex> : std::true_type {};
UNITS(float_dens) UNITS(vector_sums) UNITS(rolling_vectors) UNITS(rolling_complex)
