#include "P09_desc.hpp"
PBT(quantile_unsigned, 1, "at least one marker adjustment, more than ten samples compared with the reference model") { quantile_model<unsigned>(s, 1000); }
PBT(weighted_quantile_unsigned, 1, "at least one marker adjustment, more than ten samples compared with the reference model") { quantile_model_w<unsigned, unsigned>(s, 1000); }
