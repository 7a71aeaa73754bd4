#include "P18_lib.hpp"
COMBO(21) WCOMBO(21)
COMBO(22) WCOMBO(22)
COMBO(23) WCOMBO(23)
COMBO(24) WCOMBO(24)
