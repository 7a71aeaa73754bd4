#include "P09_desc.hpp"
PBT(weighted_quantile_double, 3, "at least one marker adjustment, more than ten samples compared with the reference model") { quantile_model_w<double, double>(s, 1000); }
PBT(weighted_quantile_int, 1, "at least one marker adjustment, more than ten samples compared with the reference model") { quantile_model_w<int, int>(s, 1000); }
