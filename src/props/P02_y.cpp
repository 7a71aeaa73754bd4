#include "P02.hpp"
// streams longer than any 16-bit counter
PBT(w_long_stream, 0.002, "more than 65536 samples")
{
    gen::Long l = gen::long_stream(s); s.note(l.note); WRef<double, double> r; std::size_t const n = l.v.size();
    accumulator_set<double, stats<tag::weighted_sum, tag::weighted_mean, tag::lazy_weighted_variance, tag::weighted_moment<2>, tag::sum_of_weights, tag::mean_of_weights, tag::immediate_mean_of_weights, tag::weighted_skewness, tag::weighted_kurtosis, tag::count, tag::min, tag::max>, double> a; accumulator_set<double, stats<tag::immediate_weighted_mean, tag::weighted_variance>, double> b;
    for(std::size_t i = 0; i < n; ++i) { a(l.v[i], weight = l.w[i]); b(l.v[i], weight = l.w[i]); r.add(l.v[i], l.w[i]); }
    LD mx = r.mx, e = 1e-10L; CHECK_EQ(count(a), n, "count"); CHECK_NEAR(sum_of_weights(a), r.sw, e * r.sw, "sum of weights"); CHECK_NEAR(extract_result<tag::mean_of_weights>(a), r.sw / n, e * 10, "mean of weights"); CHECK_NEAR(extract_result<tag::immediate_mean_of_weights>(a), r.sw / n, e * 10, "immediate mean of weights");
    CHECK_NEAR(weighted_sum(a), r.sum, e * r.sw * mx, "weighted sum"); CHECK_NEAR(weighted_mean(a), r.mean(), e * mx, "weighted mean"); CHECK_NEAR(weighted_mean(b), r.mean(), e * mx, "immediate weighted mean"); CHECK_NEAR(weighted_variance(a), r.central(2), 8 * e * mx * mx, "weighted variance"); CHECK_NEAR(weighted_variance(b), r.central(2) , 8 * e * mx * mx, "immediate weighted variance"); CHECK_NEAR(weighted_moment<2>(a), r.moment(2), e * mx * mx, "weighted moment");
    LD v = r.central(2); if(v > 1e-3L * mx * mx) { CHECK_NEAR(weighted_skewness(a), r.central(3) / (v * sqrtl(v)), 1e-4L, "weighted skewness"); CHECK_NEAR(weighted_kurtosis(a), r.central(4) / (v * v) - 3, 1e-3L, "weighted kurtosis"); }
    CHECK_EQ((boost::accumulators::min)(a), *std::min_element(l.v.begin(), l.v.end()), "min"); CHECK_EQ((boost::accumulators::max)(a), *std::max_element(l.v.begin(), l.v.end()), "max"); s.nontrivial();
}
