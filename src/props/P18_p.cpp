#include "P18_lib.hpp"
COMBO(17) WCOMBO(17)
COMBO(18) WCOMBO(18)
COMBO(19) WCOMBO(19)
COMBO(20) WCOMBO(20)
