#include "P18_lib.hpp"
COMBO(1) WCOMBO(1)
COMBO(2) WCOMBO(2)
COMBO(3) WCOMBO(3)
COMBO(4) WCOMBO(4)
