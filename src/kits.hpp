// "Kits": accumulator sets that between them contain every statistic of the library, behind one small
// interface (make, push, probe), for the properties that must hold whatever statistics a set computes.
#ifndef KITS_HPP
#define KITS_HPP
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_COMPLEX_SUPPORT
#include "gen.hpp"
#include <functional>
#include <complex>
#include <set>
#ifdef KITS_ARCHIVE
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/complex.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/boost_array.hpp>
#include <boost/serialization/utility.hpp>
#endif
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/weighted_sum_kahan.hpp>
namespace kits {
using namespace boost::accumulators; using gen::Src;
struct In { double x, w, c; };
struct Par { std::size_t cache, bins, cells, win; double p, thr, thrp; std::vector<double> probs; };
typedef std::vector<double> Out; typedef std::vector<double> Vec;
inline Par params(Src &s)
{
    Par p; p.cache = 1 + s.draw(s.flip() ? 6 : 30); p.bins = 1 + s.draw(6); p.cells = 2 + s.draw(6); p.win = 1 + s.draw(s.flip() ? 4 : 12); p.p = (double)s.integer(1, 15) / 16; p.thr = (double)s.signedint(8) / 2; p.thrp = (double)s.integer(1, 15) / 16;
    std::size_t k = 3 + s.draw(3); if(s.draw(16) == 15) { p.cache = 20 + s.draw(150); p.bins = 1 + s.draw(40); p.cells = 2 + s.draw(40); p.win = 10 + s.draw(100); k = 3 + s.draw(14); } for(std::size_t i = 0; i < k; ++i) p.probs.push_back((i + 1.0) / (k + 1)); return p;
}
// distinct: no sample twice (which of two equal samples comes first, and so which weight or variate, is not specified)
struct Feed { gen::Profile xp; gen::WProfile wp; bool distinct; std::set<double> seen; In next(Src &s) { In i; i.x = gen::value(s, xp, false, 1000); if(distinct) while(!seen.insert(i.x).second) i.x += (1.0 + seen.size()) / 512; i.w = gen::weight_value(s, wp, false, false); i.c = (double)s.signedint(64) / 4; return i; } };
inline Feed feed(Src &s, bool distinct) { Feed f; f.distinct = distinct; f.xp = gen::profile(s, false, 10); f.wp = gen::wprofile(s, false); return f; }
inline double qprob(Src &s) { return s.flip() ? (double)s.integer(1, 15) / 16 : (double)s.integer(1, 99) / 100; }

inline void put(Out &o, double d) { o.push_back(d); }
inline void put(Out &o, std::complex<double> const &z) { o.push_back(z.real()); o.push_back(z.imag()); }
template<class A, class B> void put(Out &o, std::pair<A, B> const &p) { put(o, (double)p.first); put(o, (double)p.second); }
template<class T> auto put(Out &o, T const &t) -> decltype(t.template get<2>(), void()) { put(o, (double)t.template get<0>()); put(o, (double)t.template get<1>()); put(o, (double)t.template get<2>()); }
template<class R> auto put(Out &o, R const &r) -> decltype(*r.begin(), typename std::enable_if<!std::is_arithmetic<R>::value>::type()) { std::size_t n = 0; for(auto it = r.begin(); it != r.end(); ++it) { put(o, *it); ++n; } o.push_back((double)n); }
template<class M> auto put(Out &o, M const &m) -> decltype(m.size1(), m.size2(), void(m(0, 0))) { o.push_back((double)m.size1()); o.push_back((double)m.size2()); for(std::size_t i = 0; i < m.size1(); ++i) for(std::size_t j = 0; j < m.size2(); ++j) put(o, (double)m(i, j)); }

template<class K> struct probe_of { typedef std::function<void(typename K::set const &, double, Out &)> fn; typedef std::vector<std::pair<char const *, fn> > list; };
// a refused question (integer quantile beyond the cache) is an answer as well
#define PRB(EXPR) v.push_back(std::make_pair(#EXPR, [](set const &a, double q, Out &o) { (void)q; try { put(o, EXPR); } catch(std::runtime_error const &) { o.push_back(1.25e300); } }))
#define KIT_BEGIN(NAME, PUSH, READY, MAKE)                                                             \
    static char const *name() { return #NAME; }                                                       \
    static set make(Par const &p) { (void)p; return set MAKE; }                                        \
    template<class I> static void push(set &a, I const &i) { PUSH; }                                   \
    static std::size_t ready(Par const &p) { (void)p; return READY; }                                  \
    typedef std::vector<std::pair<char const *, std::function<void(set const &, double, Out &)> > > probes; \
    static probes const &list() { static probes const l = build(); return l; }                         \
    static probes build() { probes v;
#define KIT_END return v; } };

// sets with weights or variates attached to the samples of a tail
template<class K> struct needs_distinct : std::false_type {};
#define DISTINCT(K) template<> struct needs_distinct<K> : std::true_type {};
// ---- group 1: moments and friends
#if !defined(KITS_GROUP) || KITS_GROUP == 1
struct basic_lazy { typedef accumulator_set<double, stats<tag::count, tag::sum, tag::min, tag::max, tag::mean, tag::lazy_variance, tag::moment<2>, tag::moment<5>, tag::skewness, tag::kurtosis, tag::error_of<tag::mean> > > set;
    KIT_BEGIN(basic_lazy, a(i.x), 0, ())
    PRB(count(a)); PRB(sum(a)); PRB((min)(a)); PRB((max)(a)); PRB(mean(a)); PRB(variance(a)); PRB(moment<2>(a)); PRB(moment<5>(a)); PRB(skewness(a)); PRB(kurtosis(a)); PRB(error_of<tag::mean>(a)); KIT_END
struct basic_immediate { typedef accumulator_set<double, stats<tag::immediate_mean, tag::variance, tag::sum_kahan, tag::error_of<tag::immediate_mean> > > set;
    KIT_BEGIN(basic_immediate, a(i.x), 0, ())
    PRB(mean(a)); PRB(variance(a)); PRB(sum_kahan(a)); PRB(count(a)); PRB(error_of<tag::immediate_mean>(a)); KIT_END
struct basic_float { typedef accumulator_set<float, stats<tag::sum_kahan, tag::mean, tag::variance, tag::skewness> > set;
    KIT_BEGIN(basic_float, a((float)i.x), 0, ())
    PRB(sum_kahan(a)); PRB(mean(a)); PRB(variance(a)); PRB(skewness(a)); KIT_END
struct basic_int { typedef accumulator_set<int, stats<tag::sum, tag::mean, tag::variance, tag::min, tag::max> > set;
    KIT_BEGIN(basic_int, a((int)i.x), 0, ())
    PRB(sum(a)); PRB(mean(a)); PRB(variance(a)); PRB((min)(a)); PRB((max)(a)); KIT_END
struct covariates { typedef accumulator_set<double, stats<tag::covariance<double, tag::covariate1>, tag::sum_of_variates<double, tag::covariate1>, tag::mean_of_variates<double, tag::covariate1>, tag::mean> > set;
    KIT_BEGIN(covariates, a(i.x, covariate1 = i.c), 1, ())
    PRB(covariance(a)); PRB(sum_of_variates(a)); PRB((mean_of_variates<double, tag::covariate1>(a))); PRB(mean(a)); KIT_END
struct covariates_vec { typedef accumulator_set<double, stats<tag::covariance<Vec, tag::covariate1>, tag::mean_of_variates<Vec, tag::covariate1> > > set;
    KIT_BEGIN(covariates_vec, a(i.x, covariate1 = (Vec{i.c, -i.x})), 1, (covariate1 = Vec(2)))
    PRB(covariance(a)); PRB((mean_of_variates<Vec, tag::covariate1>(a))); KIT_END
#define KITS_1(X) X(basic_lazy) X(basic_immediate) X(basic_float) X(basic_int) X(covariates) X(covariates_vec)
#endif

// ---- group 2: rolling window
#if !defined(KITS_GROUP) || KITS_GROUP == 2
struct rolling_lazy { typedef accumulator_set<double, stats<tag::rolling_window, tag::rolling_count, tag::rolling_sum, tag::lazy_rolling_mean, tag::rolling_moment<2>, tag::lazy_rolling_variance> > set;
    KIT_BEGIN(rolling_lazy, a(i.x), 1, (tag::rolling_window::window_size = p.win))
    PRB(rolling_count(a)); PRB(rolling_sum(a)); PRB(rolling_mean(a)); PRB(rolling_moment<2>(a)); PRB(rolling_variance(a)); PRB(rolling_window(a)); KIT_END
struct rolling_immediate { typedef accumulator_set<double, stats<tag::rolling_mean, tag::rolling_variance, tag::rolling_count> > set;
    KIT_BEGIN(rolling_immediate, a(i.x), 1, (rolling_window_size = p.win))
    PRB(rolling_mean(a)); PRB(rolling_variance(a)); PRB(rolling_count(a)); KIT_END
struct rolling_int { typedef accumulator_set<int, stats<tag::rolling_sum, tag::rolling_mean, tag::rolling_variance> > set;
    KIT_BEGIN(rolling_int, a((int)i.x), 1, (rolling_window_size = p.win))
    PRB(rolling_sum(a)); PRB(rolling_mean(a)); PRB(rolling_variance(a)); KIT_END
#define KITS_2(X) X(rolling_lazy) X(rolling_immediate) X(rolling_int)
#endif

// ---- group 3: order statistics
#if !defined(KITS_GROUP) || KITS_GROUP == 3
struct tail_right { typedef accumulator_set<double, stats<tag::tail<right>, tag::tail_quantile<right>, tag::coherent_tail_mean<right>, tag::non_coherent_tail_mean<right> > > set;
    KIT_BEGIN(tail_right, a(i.x), 1, (tag::tail<right>::cache_size = p.cache))
    PRB(tail(a)); PRB(quantile(a, quantile_probability = q)); PRB(coherent_tail_mean(a, quantile_probability = q)); PRB(non_coherent_tail_mean(a, quantile_probability = q)); KIT_END
struct tail_left { typedef accumulator_set<double, stats<tag::tail<left>, tag::tail_quantile<left>, tag::coherent_tail_mean<left>, tag::non_coherent_tail_mean<left> > > set;
    KIT_BEGIN(tail_left, a(i.x), 1, (tag::tail<left>::cache_size = p.cache))
    PRB(tail(a)); PRB(quantile(a, quantile_probability = q)); PRB(coherent_tail_mean(a, quantile_probability = q)); PRB(non_coherent_tail_mean(a, quantile_probability = q)); KIT_END
struct tail_variates { typedef accumulator_set<double, stats<tag::tail<right>, tag::tail_variate<Vec, tag::covariate1, right>, tag::tail_variate_means<right, Vec, tag::covariate1>(absolute), tag::tail_variate_means<right, Vec, tag::covariate1>(relative) > > set;
    KIT_BEGIN(tail_variates, a(i.x, covariate1 = (Vec{i.c, i.w})), 1, (tag::tail<right>::cache_size = p.cache))
    PRB(tail(a)); PRB(tail_variate(a)); PRB(tail_variate_means(a, quantile_probability = q)); PRB(relative_tail_variate_means(a, quantile_probability = q)); KIT_END
struct tail_variates_left { typedef accumulator_set<double, stats<tag::tail<left>, tag::tail_variate<double, tag::covariate1, left> > > set;
    KIT_BEGIN(tail_variates_left, a(i.x, covariate1 = i.c), 1, (tag::tail<left>::cache_size = p.cache))
    PRB(tail(a)); PRB(tail_variate(a)); KIT_END
DISTINCT(tail_variates) DISTINCT(tail_variates_left)
#define KITS_3(X) X(tail_right) X(tail_left) X(tail_variates) X(tail_variates_left)
#endif

// ---- group 4: P2 family and density
#if !defined(KITS_GROUP) || KITS_GROUP == 4
struct psquare { typedef accumulator_set<double, stats<tag::p_square_quantile, tag::median> > set;
    KIT_BEGIN(psquare, a(i.x), 5, (quantile_probability = p.p))
    PRB(p_square_quantile(a)); PRB(median(a)); KIT_END
struct extended { typedef accumulator_set<double, stats<tag::extended_p_square, tag::extended_p_square_quantile> > set;
    KIT_BEGIN(extended, a(i.x), 2 * p.probs.size() + 3, (extended_p_square_probabilities = p.probs))
    PRB(extended_p_square(a)); PRB(quantile(a, quantile_probability = q)); KIT_END
struct extended_quad { typedef accumulator_set<double, stats<tag::extended_p_square_quantile_quadratic> > set;
    KIT_BEGIN(extended_quad, a(i.x), 2 * p.probs.size() + 3, (extended_p_square_probabilities = p.probs))
    PRB(quantile(a, quantile_probability = q)); PRB(extended_p_square(a)); KIT_END
struct cumul { typedef accumulator_set<double, stats<tag::p_square_cumulative_distribution, tag::median(with_p_square_cumulative_distribution)> > set;
    KIT_BEGIN(cumul, a(i.x), p.cells + 1, (p_square_cumulative_distribution_num_cells = p.cells))
    PRB(p_square_cumulative_distribution(a)); PRB(median(a)); KIT_END
struct dens { typedef accumulator_set<double, stats<tag::density, tag::median(with_density)> > set;
    KIT_BEGIN(dens, a(i.x), p.cache, (density_cache_size = p.cache, density_num_bins = p.bins))
    PRB(density(a)); PRB(median(a)); KIT_END
#define KITS_4(X) X(psquare) X(extended) X(extended_quad) X(cumul) X(dens)
#endif

// ---- group 5: peaks over threshold
#if !defined(KITS_GROUP) || KITS_GROUP == 5
struct pot_value_right { typedef accumulator_set<double, stats<tag::peaks_over_threshold<right>, tag::pot_quantile<right>, tag::pot_tail_mean<right> > > set;
    KIT_BEGIN(pot_value_right, a(i.x), 1, (pot_threshold_value = p.thr))
    PRB(peaks_over_threshold(a)); PRB(quantile(a, quantile_probability = q)); PRB(tail_mean(a, quantile_probability = q)); KIT_END
struct pot_value_left { typedef accumulator_set<double, stats<tag::pot_tail_mean<left> > > set;
    KIT_BEGIN(pot_value_left, a(i.x), 1, (pot_threshold_value = p.thr))
    PRB(peaks_over_threshold(a)); PRB(quantile(a, quantile_probability = q)); PRB(tail_mean(a, quantile_probability = q)); KIT_END
struct pot_prob_right { typedef accumulator_set<double, stats<tag::pot_tail_mean<right>(with_threshold_probability) > > set;
    KIT_BEGIN(pot_prob_right, a(i.x), 1, (pot_threshold_probability = p.thrp, tag::tail<right>::cache_size = p.cache))
    PRB(peaks_over_threshold(a)); PRB(quantile(a, quantile_probability = q)); PRB(tail_mean(a, quantile_probability = q)); PRB(tail(a)); KIT_END
struct pot_prob_left { typedef accumulator_set<double, stats<tag::pot_tail_mean<left>(with_threshold_probability) > > set;
    KIT_BEGIN(pot_prob_left, a(i.x), 1, (pot_threshold_probability = p.thrp, tag::tail<left>::cache_size = p.cache))
    PRB(peaks_over_threshold(a)); PRB(quantile(a, quantile_probability = q)); PRB(tail_mean(a, quantile_probability = q)); PRB(tail(a)); KIT_END
#define KITS_5(X) X(pot_value_right) X(pot_value_left) X(pot_prob_right) X(pot_prob_left)
#endif

// ---- group 6: weighted moments
#if !defined(KITS_GROUP) || KITS_GROUP == 6
struct weighted_lazy { typedef accumulator_set<double, stats<tag::count, tag::sum_of_weights, tag::weighted_sum, tag::weighted_mean, tag::mean_of_weights, tag::lazy_weighted_variance, tag::weighted_moment<2>, tag::weighted_moment<4>, tag::weighted_skewness, tag::weighted_kurtosis>, double> set;
    KIT_BEGIN(weighted_lazy, a(i.x, weight = i.w), 1, ())
    PRB(count(a)); PRB(sum_of_weights(a)); PRB(weighted_sum(a)); PRB(weighted_mean(a)); PRB(mean_of_weights(a)); PRB(weighted_variance(a)); PRB(weighted_moment<2>(a)); PRB(weighted_moment<4>(a)); PRB(weighted_skewness(a)); PRB(weighted_kurtosis(a)); KIT_END
struct weighted_immediate { typedef accumulator_set<double, stats<tag::immediate_weighted_mean, tag::weighted_variance, tag::weighted_sum_kahan, tag::immediate_mean_of_weights>, double> set;
    KIT_BEGIN(weighted_immediate, a(i.x, weight = i.w), 1, ())
    PRB(weighted_mean(a)); PRB(weighted_variance(a)); PRB(weighted_sum_kahan(a)); PRB(mean_of_weights(a)); KIT_END
struct weighted_covariates { typedef accumulator_set<double, stats<tag::weighted_covariance<double, tag::covariate1>, tag::weighted_sum_of_variates<double, tag::covariate1>, tag::weighted_mean_of_variates<double, tag::covariate1> >, double> set;
    KIT_BEGIN(weighted_covariates, a(i.x, weight = i.w, covariate1 = i.c), 1, ())
    PRB(weighted_covariance(a)); PRB(weighted_sum_of_variates(a)); PRB((weighted_mean_of_variates<double, tag::covariate1>(a))); KIT_END
#define KITS_6(X) X(weighted_lazy) X(weighted_immediate) X(weighted_covariates)
#endif

// ---- group 7: weighted order statistics
#if !defined(KITS_GROUP) || KITS_GROUP == 7
struct weighted_tail_r { typedef accumulator_set<double, stats<tag::weighted_tail_quantile<right>, tag::non_coherent_weighted_tail_mean<right>, tag::tail_weights<right> >, double> set;
    KIT_BEGIN(weighted_tail_r, a(i.x, weight = i.w), 1, (tag::tail<right>::cache_size = p.cache))
    PRB(quantile(a, quantile_probability = q)); PRB(non_coherent_tail_mean(a, quantile_probability = q)); PRB(tail_weights(a)); PRB(tail(a)); KIT_END
struct weighted_tail_l { typedef accumulator_set<double, stats<tag::weighted_tail_quantile<left>, tag::weighted_tail_variate_means<left, Vec, tag::covariate1>(absolute), tag::weighted_tail_variate_means<left, Vec, tag::covariate1>(relative) >, double> set;
    KIT_BEGIN(weighted_tail_l, a(i.x, weight = i.w, covariate1 = (Vec{i.c, 1})), 1, (tag::tail<left>::cache_size = p.cache))
    PRB(quantile(a, quantile_probability = q)); PRB((extract_result<tag::absolute_weighted_tail_variate_means<left, Vec, tag::covariate1> >(a, quantile_probability = q))); PRB((extract_result<tag::relative_weighted_tail_variate_means<left, Vec, tag::covariate1> >(a, quantile_probability = q))); PRB(tail_weights(a)); PRB(tail_variate(a)); KIT_END
DISTINCT(weighted_tail_r) DISTINCT(weighted_tail_l)
#define KITS_7(X) X(weighted_tail_r) X(weighted_tail_l)
#endif

// ---- group 8: weighted P2 family, density, peaks over threshold
#if !defined(KITS_GROUP) || KITS_GROUP == 8
struct weighted_psquare { typedef accumulator_set<double, stats<tag::weighted_p_square_quantile, tag::weighted_median>, double> set;
    KIT_BEGIN(weighted_psquare, a(i.x, weight = i.w), 5, (quantile_probability = p.p))
    PRB(weighted_p_square_quantile(a)); PRB(weighted_median(a)); KIT_END
struct weighted_extended { typedef accumulator_set<double, stats<tag::weighted_extended_p_square_quantile>, double> set;
    KIT_BEGIN(weighted_extended, a(i.x, weight = i.w), 2 * p.probs.size() + 3, (extended_p_square_probabilities = p.probs))
    PRB(weighted_extended_p_square(a)); PRB(quantile(a, quantile_probability = q)); KIT_END
struct weighted_cumul { typedef accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution, tag::weighted_median(with_p_square_cumulative_distribution)>, double> set;
    KIT_BEGIN(weighted_cumul, a(i.x, weight = i.w), p.cells + 1, (p_square_cumulative_distribution_num_cells = p.cells))
    PRB(weighted_p_square_cumulative_distribution(a)); PRB(weighted_median(a)); KIT_END
struct weighted_dens { typedef accumulator_set<double, stats<tag::weighted_density, tag::weighted_median(with_density)>, double> set;
    KIT_BEGIN(weighted_dens, a(i.x, weight = i.w), p.cache, (density_cache_size = p.cache, density_num_bins = p.bins))
    PRB(weighted_density(a)); PRB(weighted_median(a)); KIT_END
#define KITS_8(X) X(weighted_psquare) X(weighted_extended) X(weighted_cumul) X(weighted_dens)
#endif
#if !defined(KITS_GROUP) || KITS_GROUP == 9
struct weighted_pot_v { typedef accumulator_set<double, stats<tag::weighted_pot_tail_mean<right> >, double> set;
    KIT_BEGIN(weighted_pot_v, a(i.x, weight = i.w), 1, (pot_threshold_value = p.thr))
    PRB(weighted_peaks_over_threshold(a)); PRB(quantile(a, quantile_probability = q)); PRB(tail_mean(a, quantile_probability = q)); KIT_END
struct weighted_pot_p { typedef accumulator_set<double, stats<tag::weighted_pot_tail_mean<left>(with_threshold_probability) >, double> set;
    KIT_BEGIN(weighted_pot_p, a(i.x, weight = i.w), 1, (pot_threshold_probability = p.thrp, tag::tail<left>::cache_size = p.cache))
    PRB(weighted_peaks_over_threshold(a)); PRB(quantile(a, quantile_probability = q)); PRB(tail_mean(a, quantile_probability = q)); PRB(tail_weights(a)); KIT_END
DISTINCT(weighted_pot_p)
#define KITS_9(X) X(weighted_pot_v) X(weighted_pot_p)
#endif

// ---- group 10: other sample types
#if !defined(KITS_GROUP) || KITS_GROUP == 10
struct int_tail { typedef accumulator_set<int, stats<tag::tail_quantile<right>, tag::coherent_tail_mean<right>, tag::non_coherent_tail_mean<right>, tag::tail<right> > > set;
    KIT_BEGIN(int_tail, a((int)i.x), 1, (tag::tail<right>::cache_size = p.cache))
    PRB(quantile(a, quantile_probability = q)); PRB(non_coherent_tail_mean(a, quantile_probability = q)); PRB(tail(a)); PRB(count(a)); KIT_END
struct unsigned_rolling { typedef accumulator_set<unsigned, stats<tag::rolling_window, tag::rolling_sum, tag::rolling_mean, tag::rolling_variance, tag::rolling_moment<3> > > set;
    KIT_BEGIN(unsigned_rolling, a((unsigned)std::fabs(i.x)), 1, (rolling_window_size = p.win))
    PRB(rolling_window(a)); PRB(rolling_sum(a)); PRB(rolling_mean(a)); PRB(rolling_variance(a)); PRB(rolling_moment<3>(a)); KIT_END
struct int_psquare { typedef accumulator_set<int, stats<tag::p_square_quantile, tag::median, tag::mean, tag::min> > set;
    KIT_BEGIN(int_psquare, a((int)i.x), 5, (quantile_probability = p.p))
    PRB(p_square_quantile(a)); PRB(median(a)); PRB(mean(a)); PRB((min)(a)); KIT_END
struct int_extended { typedef accumulator_set<int, stats<tag::extended_p_square_quantile_quadratic> > set;
    KIT_BEGIN(int_extended, a((int)i.x), 2 * p.probs.size() + 3, (extended_p_square_probabilities = p.probs))
    PRB(quantile(a, quantile_probability = q)); PRB(extended_p_square(a)); KIT_END
struct float_dens { typedef accumulator_set<float, stats<tag::density, tag::median(with_density)> > set;
    KIT_BEGIN(float_dens, a((float)i.x), p.cache, (density_cache_size = p.cache, density_num_bins = p.bins))
    PRB(density(a)); PRB(median(a)); KIT_END
struct vector_sums { typedef accumulator_set<Vec, stats<tag::sum, tag::mean, tag::min, tag::max, tag::moment<2>, tag::count> > set;
    KIT_BEGIN(vector_sums, a(Vec{i.x, i.c, i.w}), 1, (sample = Vec(3)))
    PRB(sum(a)); PRB(mean(a)); PRB((min)(a)); PRB((max)(a)); PRB(moment<2>(a)); PRB(count(a)); KIT_END
struct rolling_vectors { typedef accumulator_set<Vec, stats<tag::rolling_window, tag::rolling_count, tag::sum> > set;
    KIT_BEGIN(rolling_vectors, a(Vec{i.x, i.c}), 1, (rolling_window_size = p.win, sample = Vec(2)))
    PRB(rolling_window(a)); PRB(rolling_count(a)); PRB(sum(a)); KIT_END
struct rolling_complex { typedef std::complex<double> Z; typedef accumulator_set<Z, stats<tag::rolling_window, tag::rolling_sum, tag::lazy_rolling_mean> > set;
    KIT_BEGIN(rolling_complex, a(Z(i.x, i.c)), 1, (rolling_window_size = p.win))
    PRB(rolling_window(a)); PRB(rolling_sum(a)); PRB(rolling_mean(a)); KIT_END
#define KITS_10(X) X(int_tail) X(unsigned_rolling) X(int_psquare) X(int_extended) X(float_dens) X(vector_sums) X(rolling_vectors) X(rolling_complex)
#endif

// ---- group 11: remaining weighted statistics
#if !defined(KITS_GROUP) || KITS_GROUP == 11
struct weighted_pot_vl { typedef accumulator_set<double, stats<tag::weighted_peaks_over_threshold<left>, tag::weighted_pot_quantile<left>, tag::weighted_pot_tail_mean<left> >, double> set;
    KIT_BEGIN(weighted_pot_vl, a(i.x, weight = i.w), 1, (pot_threshold_value = p.thr))
    PRB(weighted_peaks_over_threshold(a)); PRB(quantile(a, quantile_probability = q)); PRB(tail_mean(a, quantile_probability = q)); PRB(sum_of_weights(a)); KIT_END
struct weighted_pot_pr { typedef accumulator_set<double, stats<tag::weighted_pot_tail_mean<right>(with_threshold_probability) >, double> set;
    KIT_BEGIN(weighted_pot_pr, a(i.x, weight = i.w), 1, (pot_threshold_probability = p.thrp, tag::tail<right>::cache_size = p.cache))
    PRB(weighted_peaks_over_threshold(a)); PRB(quantile(a, quantile_probability = q)); PRB(tail_mean(a, quantile_probability = q)); PRB(tail_weights(a)); KIT_END
struct weighted_extended_quad { typedef accumulator_set<double, stats<tag::weighted_extended_p_square_quantile_quadratic>, double> set;
    KIT_BEGIN(weighted_extended_quad, a(i.x, weight = i.w), 2 * p.probs.size() + 3, (extended_p_square_probabilities = p.probs))
    PRB(quantile(a, quantile_probability = q)); PRB(weighted_extended_p_square(a)); KIT_END
struct weighted_kahan { typedef accumulator_set<float, stats<tag::weighted_sum_kahan, tag::sum_of_weights_kahan, tag::weighted_sum_of_variates_kahan<float, tag::covariate1>, tag::weighted_mean>, float> set;
    KIT_BEGIN(weighted_kahan, a((float)i.x, weight = (float)i.w, covariate1 = (float)i.c + 0.1f), 1, ())
    PRB(weighted_sum_kahan(a)); PRB(sum_of_weights_kahan(a)); PRB((extract_result<tag::weighted_sum_of_variates_kahan<float, tag::covariate1> >(a))); PRB(weighted_mean(a)); KIT_END
struct weighted_cov_vec { typedef accumulator_set<double, stats<tag::weighted_covariance<Vec, tag::covariate2>, tag::weighted_mean_of_variates<Vec, tag::covariate2>, tag::immediate_weighted_mean>, double> set;
    KIT_BEGIN(weighted_cov_vec, a(i.x, weight = i.w, covariate2 = (Vec{i.c, -i.x})), 1, (covariate2 = Vec(2)))
    PRB(weighted_covariance(a)); PRB((weighted_mean_of_variates<Vec, tag::covariate2>(a))); PRB(weighted_mean(a)); KIT_END
struct int_weights { typedef accumulator_set<int, stats<tag::weighted_sum, tag::weighted_variance, tag::weighted_p_square_quantile>, int> set;
    KIT_BEGIN(int_weights, a((int)i.x, weight = 1 + (int)i.w % 5), 5, (quantile_probability = p.p))
    PRB(weighted_sum(a)); PRB(weighted_variance(a)); PRB(weighted_p_square_quantile(a)); KIT_END
DISTINCT(weighted_pot_pr)
#define KITS_11(X) X(weighted_pot_vl) X(weighted_pot_pr) X(weighted_extended_quad) X(weighted_kahan) X(weighted_cov_vec) X(int_weights)
#endif

// ---- group 12: statistics of all kinds in one set
#if !defined(KITS_GROUP) || KITS_GROUP == 12
struct together { typedef accumulator_set<double, stats<tag::mean, tag::immediate_mean, tag::variance, tag::kurtosis, tag::rolling_mean, tag::rolling_variance, tag::tail_quantile<left>, tag::coherent_tail_mean<left>, tag::p_square_cumulative_distribution, tag::density, tag::covariance<double, tag::covariate1>, tag::extended_p_square> > set;
    KIT_BEGIN(together, a(i.x, covariate1 = i.c), std::max(std::max(p.cache, p.cells + 1), 2 * p.probs.size() + 3), (rolling_window_size = p.win, tag::tail<left>::cache_size = p.cache, p_square_cumulative_distribution_num_cells = p.cells, density_cache_size = p.cache, density_num_bins = p.bins, extended_p_square_probabilities = p.probs))
    PRB(mean(a)); PRB(extract_result<tag::immediate_mean>(a)); PRB(variance(a)); PRB(kurtosis(a)); PRB(rolling_mean(a)); PRB(rolling_variance(a)); PRB((extract_result<tag::tail_quantile<left> >(a, quantile_probability = q))); PRB(coherent_tail_mean(a, quantile_probability = q)); PRB(p_square_cumulative_distribution(a)); PRB(density(a)); PRB(covariance(a)); PRB(extended_p_square(a)); KIT_END
#define KITS_12(X) X(together)
#endif

// bit patterns, except that all NaNs are one value
inline bool identical(Out const &a, Out const &b) { if(a.size() != b.size()) return false; for(std::size_t i = 0; i < a.size(); ++i) if(!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false; return true; }
template<class K> Out ask(typename K::set const &a, std::size_t i, double q) { Out o; K::list()[i].second(a, q, o); return o; }
template<class K> void all_same(typename K::set const &a, typename K::set const &b, double q, std::string const &what)
{
    for(std::size_t i = 0; i < K::list().size(); ++i) { Out x = ask<K>(a, i, q), y = ask<K>(b, i, q); if(!identical(x, y)) pbt::fail(std::string(K::name()) + ": " + K::list()[i].first + " q=" + pbt::show(q) + ", " + what + ": " + pbt::showv(x) + " differs from " + pbt::showv(y)); }
}
inline std::string showi(std::vector<In> const &v) { std::string r = "["; for(std::size_t i = 0; i < v.size() && i < 40; ++i) r += (i ? ", (" : "(") + pbt::show(v[i].x) + " w" + pbt::show(v[i].w) + " c" + pbt::show(v[i].c) + ")"; return r + "]"; }
inline std::string showp(Par const &p) { return "cache " + pbt::show(p.cache) + " bins " + pbt::show(p.bins) + " cells " + pbt::show(p.cells) + " window " + pbt::show(p.win) + " p " + pbt::show(p.p) + " threshold " + pbt::show(p.thr) + " threshold probability " + pbt::show(p.thrp); }
} // namespace kits
#endif
