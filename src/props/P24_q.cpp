// samples and variates with several components, of another number in every thread
#define KITS_GROUP 1
#define BOOST_NUMERIC_FUNCTIONAL_STD_VALARRAY_SUPPORT
#include <valarray>
#include "P24.hpp"
#include <boost/accumulators/statistics/weighted_sum_kahan.hpp>
typedef std::valarray<double> Arr;
template<class V> V fill(Maker &m, std::size_t d) { V v(d); for(std::size_t i = 0; i < d; ++i) v[i] = m.next().x; return v; }
template<class V> void out_of(Out &o, V const &v) { for(std::size_t i = 0; i < v.size(); ++i) o.push_back(v[i]); o.push_back((double)v.size()); }
struct Job { int kind; std::size_t dims, n; std::uint64_t seed; };
inline void job(Job const &j, Out &o)
{
    Plan l; l.seed = j.seed; l.kind = 2; Maker m(l); std::size_t const d = j.dims;
    switch(j.kind)
    {
    case 0: { accumulator_set<Vec, stats<tag::min, tag::max, tag::mean, tag::immediate_mean, tag::moment<3> > > a(sample = Vec(d)); for(std::size_t i = 0; i < j.n; ++i) a(fill<Vec>(m, d)); out_of(o, (min)(a)); out_of(o, (max)(a)); out_of(o, mean(a)); out_of(o, moment<3>(a)); break; }
    case 1: { accumulator_set<Vec, stats<tag::weighted_mean, tag::weighted_sum>, double> a(sample = Vec(d)); for(std::size_t i = 0; i < j.n; ++i) { double w = m.next().w; a(fill<Vec>(m, d), weight = w); } out_of(o, weighted_mean(a)); out_of(o, weighted_sum(a)); break; }
    case 2: { accumulator_set<double, stats<tag::covariance<Vec, tag::covariate1>, tag::mean_of_variates<Vec, tag::covariate1> > > a(covariate1 = Vec(d)); for(std::size_t i = 0; i < j.n; ++i) { double x = m.next().x; a(x, covariate1 = fill<Vec>(m, d)); } auto c = covariance(a); for(std::size_t i = 0; i < c.size(); ++i) o.push_back(c[i]); break; }
    case 3: { accumulator_set<double, stats<tag::tail_variate_means<right, Vec, tag::covariate1>(absolute) > > a(tag::tail<right>::cache_size = j.n); for(std::size_t i = 0; i < j.n; ++i) { double x = m.next().x; a(x, covariate1 = fill<Vec>(m, d)); } auto r = tail_variate_means(a, quantile_probability = 0.5); for(double x : r) o.push_back(x); break; }
    case 4: { accumulator_set<Arr, stats<tag::min, tag::max, tag::sum, tag::mean> > a(sample = Arr(d)); for(std::size_t i = 0; i < j.n; ++i) a(fill<Arr>(m, d)); out_of(o, (min)(a)); out_of(o, (max)(a)); out_of(o, sum(a)); break; }
    default: { std::vector<double> p; for(std::size_t i = 0; i < d; ++i) p.push_back((i + 1.0) / (d + 1)); accumulator_set<double, stats<tag::extended_p_square, tag::p_square_cumulative_distribution, tag::density> > a(extended_p_square_probabilities = p, p_square_cumulative_distribution_num_cells = d + 1, density_cache_size = d, density_num_bins = d); for(std::size_t i = 0; i < j.n + 2 * d + 3; ++i) a(m.next().x); put(o, extended_p_square(a)); put(o, p_square_cumulative_distribution(a)); put(o, density(a)); break; }
    }
}
PBT(apart_dimensions, 6, "two or more threads with ten or more samples each")
{
    std::vector<Job> js; std::size_t nt = 2 + s.draw(2), least = 1u << 30; std::string log; int same = s.flip() ? -1 : (int)s.draw(6); for(std::size_t t = 0; t < nt; ++t) { Job j; j.kind = same >= 0 ? same : (int)s.draw(6); j.dims = 1 + s.draw(s.flip() ? 3 : 20); j.n = 1 + s.draw(60); j.seed = s.draw(1u << 30); least = std::min(least, j.n); js.push_back(j); log += " thread " + show(t) + ": kind " + show(j.kind) + " dimension " + show(j.dims) + " samples " + show(j.n) + " seed " + show(j.seed); }
    s.note(log); std::vector<Out> got(nt), want(nt); { std::atomic<std::size_t> here(0); std::vector<std::thread> th; for(std::size_t t = 0; t < nt; ++t) th.emplace_back([&, t] { here.fetch_add(1, std::memory_order_relaxed); for(int spin = 0; spin < 2000 && here.load(std::memory_order_relaxed) < nt; ++spin) std::this_thread::yield(); job(js[t], got[t]); }); for(auto &x : th) x.join(); }
    for(std::size_t t = 0; t < nt; ++t) { job(js[t], want[t]); CHECK_MSG(identical(got[t], want[t]), "thread " + show(t) + " got other results than the same work done alone"); }
    if(least >= 10) s.nontrivial();
}
