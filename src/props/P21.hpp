#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_VALARRAY_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_COMPLEX_SUPPORT
#include "../gen.hpp"
#include <complex>
#include <valarray>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/weighted_sum_kahan.hpp>
#include <memory>
using namespace boost::accumulators; using namespace pbt; using gen::LD;
// samples with several components, kept alongside one scalar set per component
template<class V> struct comp { typedef typename V::value_type type; };
template<class T> T elem(Src &s, int k) { if(std::is_integral<T>::value) return (T)s.signedint(k == 0 ? 5 : 300); return (T)(k == 0 ? (double)s.signedint(9) : k == 1 ? (double)s.signedint(4000) / 64 : 2 * gen::real01(s) - 1); }
inline bool close_to(double a, double b, LD scale, std::size_t n) { return a == b || (a != a && b != b) || fabsl((LD)a - b) <= gen::tol<double>(n, scale) * 4; }
template<class R> void cmp(Src &s, char const *what, R const &got, std::size_t dim, std::vector<double> const &want, LD scale, std::size_t n, std::string const &log)
{
    if(got.size() != dim) { s.note(log); fail(std::string(what) + " has " + show(got.size()) + " components, expected " + show(dim)); }
    for(std::size_t i = 0; i < dim; ++i) if(!close_to((double)got[i], want[i], scale, n)) { s.note(log); fail(std::string(what) + "[" + show(i) + "] is " + show((double)got[i]) + ", the same statistic of the components alone is " + show(want[i])); }
}
// CH(expression in a): compare component-wise with the scalar sets b[i]
#define CHS(E, SCALE) { std::vector<double> w(d); for(std::size_t i = 0; i < d; ++i) { auto const &a = *b[i]; w[i] = (double)(E); } auto const &a = *v; cmp(s, #E, E, d, w, SCALE, n, log); }
template<class V, class F, class W> struct multi
{
    typedef typename comp<V>::type T; typedef accumulator_set<V, F, W> set; typedef accumulator_set<T, F, W> one; std::size_t d, n; std::unique_ptr<set> v; std::vector<std::unique_ptr<one> > b; LD m; std::string log; int k; gen::WProfile wp; Src &s;
    template<class Check> static void run(Src &s, Check check)
    {
        multi t(s); t.d = s.draw(24) == 23 ? 5 + s.draw(60) : s.draw(5); t.k = (int)s.draw(3); t.wp = gen::wprofile(s, false); t.n = 0; t.m = 1; t.make(s);
        while(t.n < 80 && s.more(12)) { t.give(s); if(s.chance(2, 3)) check(t); }
        if(t.n) check(t); s.note(t.log); if(t.d >= 2 && t.n >= 3) s.nontrivial();
    }
    explicit multi(Src &s_) : s(s_) {}
    void make(Src &s) { std::size_t win = s.draw(24) == 23 ? 7 + s.draw(40) : 1 + s.draw(6); log = "window " + show(win) + ":"; v.reset(new set(sample = V(d), tag::rolling_window::window_size = win)); for(std::size_t i = 0; i < d; ++i) b.emplace_back(new one(tag::rolling_window::window_size = win)); }
    void give(Src &s)
    {
        V x(d); for(std::size_t i = 0; i < d; ++i) { x[i] = elem<T>(s, k); m = std::max(m, fabsl((LD)x[i])); } double w = gen::weight_value(s, wp, false, false), c = (double)s.signedint(30) / 4; ++n; std::vector<double> sx(d); for(std::size_t i = 0; i < d; ++i) sx[i] = x[i]; if(n < 25) log += " " + showv(sx) + (std::is_void<W>::value ? "" : "*" + show(w)) + "|" + show(c);
        bool tmp = s.chance(1, 3); if(tmp && n < 25) log += "(named temporary)";
        if constexpr(std::is_void<W>::value) { if(tmp) (*v)(sample = V(x), covariate1 = c); else (*v)(x, covariate1 = c); for(std::size_t i = 0; i < d; ++i) (*b[i])(x[i], covariate1 = c); } else { if(tmp) (*v)(sample = V(x), weight = w, covariate1 = c); else (*v)(x, weight = w, covariate1 = c); for(std::size_t i = 0; i < d; ++i) (*b[i])(x[i], weight = w, covariate1 = c); }
    }
};
#define MULTI(NAME, V, F, W, ...) PBT(NAME, 1, "two or more components and three or more samples") { typedef multi<V, F, W> M; M::run(s, [](M &t) { Src &s = t.s; std::size_t d = t.d, n = t.n; auto &v = t.v; auto &b = t.b; LD m = t.m; std::string &log = t.log; (void)m; __VA_ARGS__ }); }
typedef tag::covariance<double, tag::covariate1> cov1;
