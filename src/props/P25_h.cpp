#define KITS_GROUP 8
#include "P25.hpp"
template<> struct weight_units<kits::weighted_psquare> : std::false_type {}; template<> struct weight_units<kits::weighted_extended> : std::false_type {}; template<> struct weight_units<kits::weighted_cumul> : std::false_type {};
KITS_8(UNITS)
