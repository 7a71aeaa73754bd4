#include "P10_desc.hpp"
PBT(extended_unsigned, 1, "at least one marker adjustment, more than ten samples compared with the reference model") { extended<unsigned, unsigned, false>(s, 1000); }
PBT(weighted_extended_unsigned, 1, "at least one marker adjustment, more than ten samples compared with the reference model") { extended<unsigned, unsigned, true>(s, 1000); }
