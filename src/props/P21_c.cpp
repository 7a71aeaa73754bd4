#include "P21.hpp"
typedef std::valarray<double> AD; typedef std::valarray<int> AI;
typedef stats<tag::sum, tag::mean, tag::min, tag::max, tag::moment<2>, tag::moment<3>, tag::lazy_variance, tag::count> F1; typedef stats<tag::immediate_mean, tag::variance, cov1> F2; typedef stats<tag::rolling_sum, tag::lazy_rolling_mean, tag::rolling_moment<2> > F4; typedef stats<tag::immediate_mean, tag::min> F5; typedef stats<tag::rolling_sum, tag::max> F6;
#define C1 CHS(sum(a), m * n) CHS(mean(a), m) CHS((min)(a), 0) CHS((max)(a), 0) CHS(moment<2>(a), m * m) CHS(moment<3>(a), m * m * m) CHS(variance(a), m * m) if(count(*v) != n) fail("count");
#define C2 CHS(mean(a), m) CHS(variance(a), m * m * 4) CHS(covariance(a), m * 40)
MULTI(val_double_lazy, AD, F1, void, C1) MULTI(val_double_imm, AD, F2, void, C2) MULTI(val_double_roll, AD, F4, void, CHS(rolling_sum(a), m * n) CHS(rolling_mean(a), m * n) CHS(rolling_moment<2>(a), m * m * n))
MULTI(val_int_lazy, AI, F1, void, C1) MULTI(val_int_imm, AI, F5, void, CHS(mean(a), m) CHS((min)(a), 0)) MULTI(val_int_roll, AI, F6, void, CHS(rolling_sum(a), 0) CHS((max)(a), 0))
