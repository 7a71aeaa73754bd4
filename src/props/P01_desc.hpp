#include "P01.hpp"
// all features in one set, checked at (almost) every prefix
template<class T> void descriptive(Src &s, long long imax)
{
    auto st = gen::stream<T>(s, imax);
    s.note("samples " + showv(st.v));
    accumulator_set<T, stats<tag::count, tag::sum, tag::mean, tag::immediate_mean, tag::min, tag::max, tag::moment<1>, tag::moment<2>, tag::moment<3>, tag::moment<4>,
        tag::lazy_variance, tag::variance, tag::skewness, tag::kurtosis, tag::error_of<tag::mean>, tag::error_of<tag::immediate_mean> > > acc;
    Ref<T> r;
    bool every = st.v.size() <= 24; unsigned phase = (unsigned)st.v.size() % 37;
    CHECK_EQ(count(acc), std::size_t(0), "count of an empty set");
    CHECK_EQ(sum(acc), T(0), "sum of an empty set");
    bool dup = false, shape = false;
    for(std::size_t i = 0; i < st.v.size(); ++i)
    {
        acc(st.v[i]); r.add(st.v[i]);
        if(!every && i + 1 != st.v.size() && i % 37 != phase && i > 6) continue;
        std::size_t n = r.n(); LD mx = r.mx;
        CHECK_EQ(count(acc), n, "count");
        if(st.exact) CHECK_EQ((LD)sum(acc), r.sum, "sum (exact)");
        CHECK_NEAR(sum(acc), r.sum, gen::tol<T>(n, mx * n), "sum");
        CHECK_EQ((boost::accumulators::min)(acc), r.mn, "min");
        CHECK_EQ((boost::accumulators::max)(acc), r.mxv, "max");
        CHECK_NEAR(extract_result<tag::mean>(acc), r.mean(), gen::tol<T>(n, mx), "mean");
        CHECK_NEAR(extract_result<tag::immediate_mean>(acc), r.mean(), gen::tol<T>(n, mx), "immediate mean");
        CHECK_NEAR(moment<1>(acc), r.moment(1), gen::tol<T>(n, mx), "moment<1>");
        CHECK_NEAR(moment<2>(acc), r.moment(2), gen::tol<T>(n, mx * mx), "moment<2>");
        CHECK_NEAR(moment<3>(acc), r.moment(3), gen::tol<T>(n, gen::powi(mx, 3)), "moment<3>");
        CHECK_NEAR(moment<4>(acc), r.moment(4), gen::tol<T>(n, gen::powi(mx, 4)), "moment<4>");
        LD var = r.central(2), vt = gen::tol<T>(n, 4 * mx * mx);
        CHECK_NEAR(extract_result<tag::lazy_variance>(acc), var, vt, "lazy variance");
        CHECK_NEAR(extract_result<tag::variance>(acc), var, vt, "variance");
        if(n >= 2 && vt < 0.01L * var)
        {
            LD e = sqrtl(var / (n - 1)), et = e * (vt / var + 16 * gen::eps_of<T>::value());
            CHECK_NEAR(error_of<tag::mean>(acc), e, et, "error_of<mean>");
            CHECK_NEAR(error_of<tag::immediate_mean>(acc), e, et, "error_of<immediate_mean>");
        }
        LD t, sk = r.central(3) / (var * sqrtl(var)), ku = r.central(4) / (var * var) - 3;
        if(shape_tol<T>(n, mx, var, 3, sk, t)) { CHECK_NEAR(skewness(acc), sk, t, "skewness"); shape = true; }
        if(shape_tol<T>(n, mx, var, 4, ku, t)) CHECK_NEAR(kurtosis(acc), ku, t, "kurtosis");
        if(i && st.v[i] == st.v[i - 1]) dup = true;
    }
    if(st.v.empty()) s.label("empty"); else if(st.v.size() == 1) s.label("one sample"); else if(st.v.size() < 10) s.label("2-9 samples"); else if(st.v.size() < 100) s.label("10-99 samples"); else s.label("100+ samples");
    if(dup) s.label("repeated value");
    if(shape) s.label("shape statistics compared");
    if(!st.v.empty() && r.mxv < T(0)) s.label("all negative");
    if(st.v.size() >= 2 && r.mn != r.mxv) s.nontrivial();
}
