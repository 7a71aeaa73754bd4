#define KITS_GROUP 5
#include "P26.hpp"
FAULTS(pot_prob_right) FAULTS(pot_prob_left)
