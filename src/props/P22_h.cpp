// documented ways to push a range: for_each with the set itself (a copy is fed and assigned back), with a reference to it, with bind
#include "../gen.hpp"
#include <functional>
#include <boost/bind/bind.hpp>
#include <boost/ref.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
using namespace boost::accumulators; using namespace pbt; using gen::LD;
typedef accumulator_set<double, stats<tag::mean, tag::variance, tag::immediate_mean, tag::min, tag::tail_quantile<left>, tag::rolling_mean, tag::rolling_variance, tag::density, tag::median, tag::sum_kahan, tag::p_square_cumulative_distribution> > A;
static void same(A const &a, A const &b, bool full, double q, std::string const &at)
{
    CHECK_EQ(count(a), count(b), "count" + at); CHECK_SAME((double)mean(a), (double)mean(b), "mean" + at); CHECK_SAME((double)variance(a), (double)variance(b), "variance" + at); CHECK_SAME((double)(boost::accumulators::min)(a), (double)(boost::accumulators::min)(b), "min" + at); CHECK_SAME((double)sum_kahan(a), (double)sum_kahan(b), "compensated sum" + at);
    if(!count(a)) return; CHECK_SAME((double)rolling_mean(a), (double)rolling_mean(b), "rolling mean" + at); CHECK_SAME((double)rolling_variance(a), (double)rolling_variance(b), "rolling variance" + at); CHECK_SAME((double)quantile(a, quantile_probability = q), (double)quantile(b, quantile_probability = q), "tail quantile" + at);
    if(!full) return; CHECK_SAME((double)median(a), (double)median(b), "median" + at); auto x = density(a), y = density(b); std::vector<std::pair<double, double> > u(x.begin(), x.end()), v(y.begin(), y.end()); CHECK_MSG(u == v, "density" + at); auto c = p_square_cumulative_distribution(a), d = p_square_cumulative_distribution(b); std::vector<std::pair<double, double> > e(c.begin(), c.end()), f(d.begin(), d.end()); CHECK_MSG(e == f, "cumulative distribution" + at);
}
PBT(ranges, 0.2, "two or more ranges pushed, one of them after the window rolled")
{
    std::size_t cs = 1 + s.draw(12), nb = 1 + s.draw(6), win = 1 + s.draw(9), cache = 1 + s.draw(20), cells = 2 + s.draw(5), n = 0, parts = 0; double q = (double)s.integer(1, 63) / 64; std::string log;
    auto make = [&] { return A(density_cache_size = cs, density_num_bins = nb, rolling_window_size = win, tag::tail<left>::cache_size = cache, p_square_cumulative_distribution_num_cells = cells); };
    A a = make(), b = make(), c = make(), d = make(); bool rolled = false;
    while(s.more(5))
    {
        auto st = gen::stream<double>(s, 0, 0, 60); auto const &v = st.v; for(double x : v) a(x); if(n > win) rolled = true; ++parts; n += v.size(); log += " " + showv(v);
        b = std::for_each(v.begin(), v.end(), b); std::for_each(v.begin(), v.end(), std::ref(c)); std::for_each(v.begin(), v.end(), boost::bind<void>(boost::ref(d), boost::placeholders::_1));
        bool full = n >= cs && n >= cells + 1 && n >= 5; same(b, a, full, q, ", set given to for_each and assigned back"); same(c, a, full, q, ", reference given to for_each"); same(d, a, full, q, ", bound reference given to for_each");
    }
    s.note("ranges" + log); if(parts > 1 && rolled) s.nontrivial();
}
