#include "P13_desc.hpp"
PBT(weighted_pot_int_weight, 0.5, "a well conditioned fit was compared with the reference") { if(s.flip()) wpot_value<double, int, right>(s); else wpot_value<double, int, left>(s); }
PBT(weighted_pot_prob_int_weight, 0.5, "a well conditioned fit was compared with the reference") { if(s.flip()) wpot_prob<double, int, right>(s); else wpot_prob<double, int, left>(s); }
