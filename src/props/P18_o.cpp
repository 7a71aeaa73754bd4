#include "P18_lib.hpp"
COMBO(13) WCOMBO(13)
COMBO(14) WCOMBO(14)
COMBO(15) WCOMBO(15)
COMBO(16) WCOMBO(16)
