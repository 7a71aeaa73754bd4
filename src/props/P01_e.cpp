// every feature alone in its set (only what it pulls in itself), lazy and immediate spelled by modifier
#include "P01.hpp"
template<class T, class Feat, class Get> void push_all(std::vector<T> const &v, Get get)
{
    accumulator_set<T, stats<Feat> > a; for(T x : v) a(x); get(a);
}
template<class T> void alone(Src &s, long long imax)
{
    auto st = gen::stream<T>(s, imax, 1); Ref<T> r; for(T x : st.v) r.add(x);
    s.note("samples " + showv(st.v));
    std::size_t n = r.n(); LD mx = r.mx, var = r.central(2), vt = gen::tol<T>(n, 4 * mx * mx), t;
    int which = (int)s.draw(14);
    switch(which)
    {
    case 0: push_all<T, tag::count>(st.v, [&](auto &a) { CHECK_EQ(count(a), n, "count"); }); break;
    case 1: push_all<T, tag::sum>(st.v, [&](auto &a) { CHECK_NEAR(sum(a), r.sum, gen::tol<T>(n, mx * n), "sum"); }); break;
    case 2: push_all<T, tag::mean(lazy)>(st.v, [&](auto &a) { CHECK_NEAR(mean(a), r.mean(), gen::tol<T>(n, mx), "mean(lazy)"); }); break;
    case 3: push_all<T, tag::mean(immediate)>(st.v, [&](auto &a) { CHECK_NEAR(mean(a), r.mean(), gen::tol<T>(n, mx), "mean(immediate)"); }); break;
    case 4: push_all<T, tag::min>(st.v, [&](auto &a) { CHECK_EQ((boost::accumulators::min)(a), r.mn, "min"); }); break;
    case 5: push_all<T, tag::max>(st.v, [&](auto &a) { CHECK_EQ((boost::accumulators::max)(a), r.mxv, "max"); }); break;
    case 6: push_all<T, tag::variance(lazy)>(st.v, [&](auto &a) { CHECK_NEAR(variance(a), var, vt, "variance(lazy)"); }); break;
    case 7: push_all<T, tag::variance(immediate)>(st.v, [&](auto &a) { CHECK_NEAR(variance(a), var, vt, "variance(immediate)"); }); break;
    case 8: { LD sk = r.central(3) / (var * sqrtl(var)); if(shape_tol<T>(n, mx, var, 3, sk, t)) push_all<T, tag::skewness>(st.v, [&](auto &a) { CHECK_NEAR(skewness(a), sk, t, "skewness"); }); } break;
    case 9: { LD ku = r.central(4) / (var * var) - 3; if(shape_tol<T>(n, mx, var, 4, ku, t)) push_all<T, tag::kurtosis>(st.v, [&](auto &a) { CHECK_NEAR(kurtosis(a), ku, t, "kurtosis"); }); } break;
    case 10: if(n >= 2 && vt < 0.01L * var) push_all<T, tag::error_of<tag::mean(lazy)> >(st.v, [&](auto &a) { LD e = sqrtl(var / (n - 1)); CHECK_NEAR(error_of<tag::mean(lazy)>(a), e, e * (vt / var + 1e-6L), "error_of<mean(lazy)>"); }); break;
    case 11: if(n >= 2 && vt < 0.01L * var) push_all<T, tag::error_of<tag::mean(immediate)> >(st.v, [&](auto &a) { LD e = sqrtl(var / (n - 1)); CHECK_NEAR(error_of<tag::mean(immediate)>(a), e, e * (vt / var + 1e-6L), "error_of<mean(immediate)>"); }); break;
    case 12: push_all<T, tag::moment<6> >(st.v, [&](auto &a) { CHECK_NEAR(moment<6>(a), r.moment(6), gen::tol<T>(n, gen::powi(mx, 6)), "moment<6>"); }); break;
    case 13: push_all<T, tag::moment<7> >(st.v, [&](auto &a) { CHECK_NEAR(moment<7>(a), r.moment(7), gen::tol<T>(n, gen::powi(mx, 7)), "moment<7>"); }); break;
    }
    static char const *const nm[] = { "count", "sum", "mean lazy", "mean immediate", "min", "max", "variance lazy", "variance immediate", "skewness", "kurtosis", "error_of lazy", "error_of immediate", "moment<6>", "moment<7>" };
    s.label(nm[which]); s.note(nm[which]);
    if(n >= 2 && r.mn != r.mxv) s.nontrivial();
}
PBT(alone_double, 3, "two or more samples, not all equal") { alone<double>(s, 0); }
