#include "P05.hpp"
template<class T> void rolling(Src &s, long long imax)
{
    std::size_t W = window_size(s); auto st = gen::stream<T>(s, imax, 0, 2000, W > 100 ? 700 : 0);
    s.note("window " + show(W)); s.note("samples " + showv(st.v));
    accumulator_set<T, stats<tag::rolling_window, tag::rolling_count, tag::rolling_sum, tag::lazy_rolling_mean, tag::rolling_moment<1>, tag::rolling_moment<2>, tag::rolling_moment<3>, tag::lazy_rolling_variance, tag::count> > lz(tag::rolling_window::window_size = W);
    accumulator_set<T, stats<tag::rolling_window, tag::rolling_mean, tag::rolling_variance, tag::rolling_count> > im(tag::rolling_window::window_size = W);
    accumulator_set<T, stats<tag::immediate_rolling_mean> > im2(tag::rolling_window::window_size = W);
    Window<T> r(W); bool every = st.v.size() <= 40; std::size_t phase = st.v.size() % 13;
    CHECK_EQ(rolling_count(lz), std::size_t(0), "count of an empty window"); CHECK_EQ((std::size_t)boost::size(rolling_window(lz)), std::size_t(0), "empty window");
    for(std::size_t i = 0; i < st.v.size(); ++i)
    {
        T x = st.v[i]; lz(x); im(x); im2(x); r.add(x);
        if(!every && i % 13 != phase && i + 1 != st.v.size() && !(i + 3 > W && i < W + 3)) continue;
        std::size_t n = r.total; LD mx = r.mx;
        CHECK_EQ(rolling_count(lz), r.d.size(), "rolling count"); CHECK_EQ(rolling_count(im), r.d.size(), "rolling count");
        CHECK_EQ(count(lz), n, "count");
        same_range(rolling_window(lz), r.d, "rolling window"); same_range(rolling_window(im), r.d, "rolling window");
        if(st.exact) CHECK_EQ((LD)rolling_sum(lz), r.sum(), "rolling sum (exact)");
        CHECK_NEAR(rolling_sum(lz), r.sum(), gen::tol<T>(n, mx * r.d.size() + mx), "rolling sum");
        CHECK_NEAR(extract_result<tag::lazy_rolling_mean>(lz), r.mean(), gen::tol<T>(n, mx), "lazy rolling mean");
        CHECK_NEAR(rolling_mean(im), r.mean(), gen::tol<T>(n, mx), "rolling mean"); CHECK_NEAR(rolling_mean(im2), r.mean(), gen::tol<T>(n, mx), "immediate rolling mean");
        CHECK_NEAR(rolling_moment<1>(lz), r.moment(1), gen::tol<T>(n, mx), "rolling moment<1>");
        CHECK_NEAR(rolling_moment<2>(lz), r.moment(2), gen::tol<T>(n, mx * mx), "rolling moment<2>");
        CHECK_NEAR(rolling_moment<3>(lz), r.moment(3), gen::tol<T>(n, mx * mx * mx), "rolling moment<3>");
        LD v = r.var();
        CHECK_NEAR(rolling_variance(im), v, gen::tol<T>(n, 16 * mx * mx), "rolling variance");
        CHECK_NEAR(extract_result<tag::lazy_rolling_variance>(lz), v, gen::tol<T>(n, 16 * mx * mx), "lazy rolling variance");
        CHECK_MSG((LD)rolling_variance(im) >= 0, "negative rolling variance " + show(rolling_variance(im)));
        if(r.d.size() < 2) { CHECK_EQ((LD)rolling_variance(im), 0.0L, "variance of fewer than two values"); CHECK_EQ((LD)extract_result<tag::lazy_rolling_variance>(lz), 0.0L, "variance of fewer than two values"); }
    }
    if(W == 1) s.label("window of 1"); if(st.v.size() > W) s.label("window rolled"); if(st.v.size() == W) s.label("window exactly full"); if(st.v.size() > 5 * W) s.label("rolled 5 times or more");
    if(st.v.size() > W && r.mx > 0) s.nontrivial();
}
