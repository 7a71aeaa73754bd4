#include "P13_desc.hpp"
PBT(weighted_pot_value_right, 2, "a well conditioned fit was compared with the reference") { wpot_value<double, double, right>(s); }
PBT(weighted_pot_value_left, 2, "a well conditioned fit was compared with the reference") { wpot_value<double, double, left>(s); }
