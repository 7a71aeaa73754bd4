#include "P21.hpp"
typedef std::vector<double> VD; typedef std::vector<int> VI;
typedef stats<tag::sum, tag::mean, tag::min, tag::max, tag::moment<2>, tag::moment<3>, tag::lazy_variance, tag::sum_of_weights> F1; typedef stats<tag::immediate_mean, tag::variance, cov1> F2;
#define C1 CHS(sum(a), m * n * 1000) CHS(mean(a), m * 4) CHS((min)(a), 0) CHS((max)(a), 0) CHS(moment<2>(a), m * m * 4) CHS(moment<3>(a), m * m * m * 4) CHS(variance(a), m * m * 4)
#define C2 CHS(mean(a), m * 4) CHS(variance(a), m * m * 16) CHS(covariance(a), m * 160)
MULTI(wvec_double_lazy, VD, F1, double, C1) MULTI(wvec_double_imm, VD, F2, double, C2)
MULTI(wvec_int_lazy, VI, F1, double, C1) MULTI(wvec_int_imm, VI, F2, double, C2)
