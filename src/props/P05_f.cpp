#include "P05_desc.hpp"
PBT(rolling_longlong, 1, "more samples than the window holds") { rolling<long long>(s, 100000); }
// moments of higher order; each rolling statistic alone in its set
template<class T, class F, class G> void alone(std::vector<T> const &v, std::size_t W, G get) { accumulator_set<T, stats<F> > a(rolling_window_size = W); Window<T> r(W); std::size_t i = 0; for(T x : v) { a(x); r.add(x); ++i; if(i <= W + 3 || i == v.size() || i % 7 == 0) get(a, r); } }
template<class T> void rolling_alone(Src &s, long long imax)
{
    std::size_t W = window_size(s); auto st = gen::stream<T>(s, imax, 1, 400); int k = (int)s.draw(12); s.note("window " + show(W) + " statistic " + show(k) + " samples " + showv(st.v)); auto const &v = st.v;
    #define NEARW(E, WANT, SC) [&](auto &a, Window<T> const &r) { CHECK_NEAR(E, r.WANT, gen::tol<T>(r.total + 16, SC), #E); }
    switch(k)
    {
    case 0: alone<T, tag::rolling_count>(v, W, [&](auto &a, Window<T> const &r) { CHECK_EQ(rolling_count(a), r.d.size(), "rolling count"); }); break;
    case 1: alone<T, tag::rolling_sum>(v, W, NEARW(rolling_sum(a), sum(), r.mx * (r.d.size() + 1))); break;
    case 2: alone<T, tag::lazy_rolling_mean>(v, W, NEARW(rolling_mean(a), mean(), r.mx)); break;
    case 3: alone<T, tag::immediate_rolling_mean>(v, W, NEARW(rolling_mean(a), mean(), r.mx)); break;
    case 4: alone<T, tag::rolling_mean(lazy)>(v, W, NEARW(rolling_mean(a), mean(), r.mx)); break;
    case 5: alone<T, tag::rolling_mean(immediate)>(v, W, NEARW(rolling_mean(a), mean(), r.mx)); break;
    case 6: alone<T, tag::rolling_variance(lazy)>(v, W, NEARW(rolling_variance(a), var(), 16 * r.mx * r.mx)); break;
    case 7: alone<T, tag::rolling_variance(immediate)>(v, W, NEARW(rolling_variance(a), var(), 16 * r.mx * r.mx)); break;
    case 8: alone<T, tag::rolling_moment<4> >(v, W, NEARW(rolling_moment<4>(a), moment(4), gen::powi(r.mx, 4))); break;
    case 9: alone<T, tag::rolling_moment<5> >(v, W, NEARW(rolling_moment<5>(a), moment(5), gen::powi(r.mx, 5))); break;
    case 10: alone<T, tag::rolling_window>(v, W, [&](auto &a, Window<T> const &r) { same_range(rolling_window(a), r.d, "rolling window"); }); break;
    default: alone<T, tag::rolling_window_plus1>(v, W, [&](auto &a, Window<T> const &r) { std::size_t n = (std::size_t)boost::size(rolling_window_plus1(a)); std::size_t const want = r.total < W + 1 ? r.total : W + 1; CHECK_EQ(n, want, "length of the window plus one"); }); break;
    }
    if(v.size() > W) s.nontrivial();
}
PBT(rolling_alone_double, 1, "more samples than the window holds") { rolling_alone<double>(s, 0); }
PBT(rolling_alone_unsigned, 0.5, "more samples than the window holds") { rolling_alone<unsigned>(s, 20); }
