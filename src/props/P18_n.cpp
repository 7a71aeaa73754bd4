#include "P18_lib.hpp"
COMBO(9) WCOMBO(9)
COMBO(10) WCOMBO(10)
COMBO(11) WCOMBO(11)
COMBO(12) WCOMBO(12)
