// Compensated sums built with relaxed floating-point rules; the library is in a namespace of its own here (see the options of the
// files that include this), so that the linker cannot take code of the other builds for it.
#include <cstddef>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/weighted_sum_kahan.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
namespace FAST {
namespace ba = boost::accumulators;
// out: sum, sum of variates, weighted sum, sum of weights, weighted sum of variates
template<class T> void sums_of(T const *x, T const *c, T const *w, std::size_t n, std::size_t copy_at, T *out)
{
    typedef ba::accumulator_set<T, ba::stats<ba::tag::sum_kahan, ba::tag::sum_of_variates_kahan<T, ba::tag::covariate1> > > plain; typedef ba::accumulator_set<T, ba::stats<ba::tag::weighted_sum_kahan, ba::tag::sum_of_weights_kahan, ba::tag::weighted_sum_of_variates_kahan<T, ba::tag::covariate1> >, T> weighted;
    plain a; weighted b;
    for(std::size_t i = 0; i < n; ++i) { if(i == copy_at) { plain a2(a); weighted b2(b); a = a2; b = b2; } a(x[i], ba::covariate1 = c[i]); b(x[i], ba::weight = w[i], ba::covariate1 = c[i]); }
    out[0] = ba::sum_kahan(a); out[1] = ba::extract_result<ba::tag::sum_of_variates_kahan<T, ba::tag::covariate1> >(a); out[2] = ba::weighted_sum_kahan(b); out[3] = ba::extract_result<ba::tag::sum_of_weights_kahan>(b); out[4] = ba::extract_result<ba::tag::weighted_sum_of_variates_kahan<T, ba::tag::covariate1> >(b);
}
void sums(float const *x, float const *c, float const *w, std::size_t n, std::size_t copy_at, float *out) { sums_of(x, c, w, n, copy_at, out); }
void sums(double const *x, double const *c, double const *w, std::size_t n, std::size_t copy_at, double *out) { sums_of(x, c, w, n, copy_at, out); }
}
