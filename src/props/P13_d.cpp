#include "P13_desc.hpp"
PBT(weighted_pot_prob_right, 2, "a well conditioned fit was compared with the reference") { wpot_prob<double, double, right>(s); }
PBT(weighted_pot_prob_left, 2, "a well conditioned fit was compared with the reference") { wpot_prob<double, double, left>(s); }
