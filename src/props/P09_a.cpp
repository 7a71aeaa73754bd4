#include "P09_desc.hpp"
PBT(quantile_double, 3, "at least one marker adjustment, more than ten samples compared with the reference model") { quantile_model<double>(s, 1000); }
PBT(quantile_int, 1, "at least one marker adjustment, more than ten samples compared with the reference model") { quantile_model<int>(s, 1000); }
