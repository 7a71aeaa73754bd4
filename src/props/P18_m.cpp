#include "P18_lib.hpp"
COMBO(5) WCOMBO(5)
COMBO(6) WCOMBO(6)
COMBO(7) WCOMBO(7)
COMBO(8) WCOMBO(8)
