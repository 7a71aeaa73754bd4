#include "P11_desc.hpp"
PBT(cumulative_unsigned, 1, "at least one marker adjustment, more than ten samples compared with the reference model") { cumul<unsigned>(s, 1000); }
PBT(weighted_cumulative_unsigned, 1, "at least one marker adjustment, more than ten samples compared with the reference model") { cumul_w<unsigned, unsigned>(s, 1000); }
