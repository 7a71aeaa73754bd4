#include "P21.hpp"
typedef std::vector<double> VD; typedef std::vector<int> VI;
typedef stats<tag::sum, tag::mean, tag::min, tag::max, tag::moment<2>, tag::moment<3>, tag::lazy_variance, tag::count> F1; typedef stats<tag::immediate_mean, tag::variance, cov1> F2;
#define C1 CHS(sum(a), m * n) CHS(mean(a), m) CHS((min)(a), 0) CHS((max)(a), 0) CHS(moment<2>(a), m * m) CHS(moment<3>(a), m * m * m) CHS(variance(a), m * m) if(count(*v) != n) fail("count");
#define C2 CHS(mean(a), m) CHS(variance(a), m * m * 4) CHS(covariance(a), m * 40)
MULTI(vec_double_lazy, VD, F1, void, C1) MULTI(vec_double_imm, VD, F2, void, C2)
MULTI(vec_int_lazy, VI, F1, void, C1) MULTI(vec_int_imm, VI, F2, void, C2)
