#include "P13_desc.hpp"
PBT(pot_value_unsigned, 0.5, "a well conditioned fit was compared with the reference") { if(s.flip()) pot_value<unsigned, right>(s); else pot_value<unsigned, left>(s); }
PBT(pot_prob_unsigned, 0.5, "a well conditioned fit was compared with the reference") { if(s.flip()) pot_prob<unsigned, right>(s); else pot_prob<unsigned, left>(s); }
