#include "P11_desc.hpp"
PBT(cumulative_double, 2, "at least one marker adjustment, more than ten samples compared with the reference model") { cumul<double>(s, 1000); }
PBT(cumulative_int, 1, "at least one marker adjustment, more than ten samples compared with the reference model") { cumul<int>(s, 1000); }
