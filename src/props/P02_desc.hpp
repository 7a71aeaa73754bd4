#include "P02.hpp"
// definitions of the weighted statistics at (almost) every prefix
template<class T, class W> void wdescriptive(Src &s, long long imax)
{
    typedef typename prec<T, W>::type P;
    auto st = gen::stream<T>(s, imax); auto wp = gen::wprofile(s, std::is_integral<W>::value); auto ws = gen::weights<W>(s, st.v.size(), wp);
    s.note("samples " + showv(st.v)); s.note("weights " + showv(ws));
    accumulator_set<T, stats<tag::count, tag::sum_of_weights, tag::mean_of_weights, tag::immediate_mean_of_weights, tag::weighted_sum, tag::weighted_mean, tag::immediate_weighted_mean,
        tag::weighted_moment<2>, tag::weighted_moment<3>, tag::weighted_moment<4>, tag::lazy_weighted_variance, tag::weighted_variance, tag::weighted_skewness, tag::weighted_kurtosis, tag::min, tag::max>, W> acc;
    WRef<T, W> r; bool every = st.v.size() <= 24; unsigned phase = (unsigned)st.v.size() % 37; bool differ = false, zero = false, shape = false; T mn{}, mxv{};
    for(std::size_t i = 0; i < st.v.size(); ++i)
    {
        acc(st.v[i], weight = ws[i]); r.add(st.v[i], ws[i]);
        if(i == 0) mn = mxv = st.v[0]; else { mn = std::min(mn, st.v[i]); mxv = std::max(mxv, st.v[i]); }
        if(ws[i] != ws[0]) differ = true; if(ws[i] == 0) zero = true;
        if(!every && i + 1 != st.v.size() && i % 37 != phase && i > 6) continue;
        std::size_t n = r.n(); LD mx = r.mx;
        CHECK_EQ(count(acc), n, "count");
        CHECK_EQ((boost::accumulators::min)(acc), mn, "min"); CHECK_EQ((boost::accumulators::max)(acc), mxv, "max");
        CHECK_NEAR(sum_of_weights(acc), r.sw, gen::tol<P>(n, r.sw), "sum of weights");
        CHECK_NEAR(extract_result<tag::mean_of_weights>(acc), r.sw / n, gen::tol<P>(n, r.sw / n), "mean of weights");
        CHECK_NEAR(extract_result<tag::immediate_mean_of_weights>(acc), r.sw / n, gen::tol<P>(n, r.sw / n), "immediate mean of weights");
        CHECK_NEAR(weighted_sum(acc), r.sum, gen::tol<P>(n, r.asum), "weighted sum");
        CHECK_NEAR(extract_result<tag::weighted_mean>(acc), r.mean(), gen::tol<P>(n, mx), "weighted mean");
        CHECK_NEAR(extract_result<tag::immediate_weighted_mean>(acc), r.mean(), gen::tol<P>(n, mx), "immediate weighted mean");
        CHECK_NEAR(weighted_moment<2>(acc), r.moment(2), gen::tol<P>(n, mx * mx), "weighted moment<2>");
        CHECK_NEAR(weighted_moment<3>(acc), r.moment(3), gen::tol<P>(n, gen::powi(mx, 3)), "weighted moment<3>");
        CHECK_NEAR(weighted_moment<4>(acc), r.moment(4), gen::tol<P>(n, gen::powi(mx, 4)), "weighted moment<4>");
        LD var = r.central(2), vt = gen::tol<P>(n, 8 * mx * mx);
        CHECK_NEAR(extract_result<tag::lazy_weighted_variance>(acc), var, vt, "lazy weighted variance");
        CHECK_NEAR(extract_result<tag::weighted_variance>(acc), var, vt, "weighted variance");
        LD t, sk = r.central(3) / (var * sqrtl(var)), ku = r.central(4) / (var * var) - 3;
        if(wshape_tol<P>(n, mx, var, 3, sk, t)) { CHECK_NEAR(weighted_skewness(acc), sk, t, "weighted skewness"); shape = true; }
        if(wshape_tol<P>(n, mx, var, 4, ku, t)) CHECK_NEAR(weighted_kurtosis(acc), ku, t, "weighted kurtosis");
    }
    if(differ) s.label("weights differ"); if(zero) s.label("a zero weight"); if(shape) s.label("shape statistics compared");
    if(st.v.size() >= 100) s.label("100+ samples");
    if(differ && mn != mxv) s.nontrivial();
}
