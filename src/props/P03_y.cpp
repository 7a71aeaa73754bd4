#include "P03.hpp"
// streams longer than any 16-bit counter
PBT(long_stream, 0.002, "more than 65536 pairs")
{
    gen::Long l = gen::long_stream(s), o = gen::long_stream(s); s.note(l.note + " variates: " + o.note); std::size_t const n = std::min(l.v.size(), o.v.size()); Vec x(l.v.begin(), l.v.begin() + n), y(o.v.begin(), o.v.begin() + n), w(l.w.begin(), l.w.begin() + n), one(n, 1.0); LD mx = gen::maxabs(x), my = gen::maxabs(y);
    accumulator_set<double, stats<tag::covariance<double, tag::covariate1>, tag::mean_of_variates<double, tag::covariate1>, tag::sum_of_variates<double, tag::covariate1>, tag::immediate_mean_of_variates<double, tag::covariate1> > > a; accumulator_set<double, stats<tag::weighted_covariance<double, tag::covariate1>, tag::weighted_mean_of_variates<double, tag::covariate1>, tag::immediate_weighted_mean_of_variates<double, tag::covariate1> >, double> b;
    for(std::size_t i = 0; i < n; ++i) { a(x[i], covariate1 = y[i]); b(x[i], weight = w[i], covariate1 = y[i]); }
    CHECK_NEAR(covariance(a), wcov(x, y, one), 1e-9L * mx * my, "covariance"); CHECK_NEAR((mean_of_variates<double, tag::covariate1>(a)), wmean(y, one), 1e-10L * my, "mean of the variate"); CHECK_NEAR((extract_result<tag::immediate_mean_of_variates<double, tag::covariate1> >(a)), wmean(y, one), 1e-10L * my, "immediate mean of the variate"); CHECK_NEAR((extract_result<tag::sum_of_variates<double, tag::covariate1> >(a)), wmean(y, one) * n, 1e-10L * my * n, "sum of the variate");
    CHECK_NEAR(weighted_covariance(b), wcov(x, y, w), 1e-9L * mx * my, "weighted covariance"); CHECK_NEAR((extract_result<tag::weighted_mean_of_variates<double, tag::covariate1> >(b)), wmean(y, w), 1e-10L * my, "weighted mean of the variate"); CHECK_NEAR((extract_result<tag::immediate_weighted_mean_of_variates<double, tag::covariate1> >(b)), wmean(y, w), 1e-10L * my, "immediate weighted mean of the variate"); s.nontrivial();
}
