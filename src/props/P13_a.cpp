#include "P13_desc.hpp"
PBT(pot_value_right, 2, "a well conditioned fit was compared with the reference") { pot_value<double, right>(s); }
PBT(pot_value_left, 2, "a well conditioned fit was compared with the reference") { pot_value<double, left>(s); }
PBT(pot_value_int, 0.5, "a well conditioned fit was compared with the reference") { if(s.flip()) pot_value<int, right>(s); else pot_value<int, left>(s); }
