#include "P13_desc.hpp"
PBT(wpot_value_unsigned, 0.5, "a well conditioned fit was compared with the reference") { if(s.flip()) wpot_value<unsigned, double, right>(s); else wpot_value<unsigned, double, left>(s); }
PBT(wpot_prob_unsigned, 0.5, "a well conditioned fit was compared with the reference") { if(s.flip()) wpot_prob<unsigned, double, right>(s); else wpot_prob<unsigned, double, left>(s); }
