#include "P13_desc.hpp"
PBT(pot_prob_right, 2, "a well conditioned fit was compared with the reference") { pot_prob<double, right>(s); }
PBT(pot_prob_left, 2, "a well conditioned fit was compared with the reference") { pot_prob<double, left>(s); }
PBT(pot_prob_int, 0.5, "a well conditioned fit was compared with the reference") { if(s.flip()) pot_prob<int, right>(s); else pot_prob<int, left>(s); }
