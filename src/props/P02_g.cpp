#include "P02.hpp"
// each weighted feature alone in its set
template<class Feat, class Get> void one(std::vector<double> const &v, std::vector<double> const &w, Get get)
{
    accumulator_set<double, stats<Feat>, double> a; for(std::size_t i = 0; i < v.size(); ++i) a(v[i], weight = w[i]); get(a);
}
PBT(w_alone, 2, "weights differ and samples differ")
{
    auto st = gen::stream<double>(s, 0, 1); auto wp = gen::wprofile(s, false); auto w = gen::weights<double>(s, st.v.size(), wp); WRef<double, double> r;
    s.note("samples " + showv(st.v)); s.note("weights " + showv(w)); bool dw = false, dx = false;
    for(std::size_t i = 0; i < w.size(); ++i) { r.add(st.v[i], w[i]); dw |= w[i] != w[0]; dx |= st.v[i] != st.v[0]; }
    std::size_t n = r.n(); LD mx = r.mx, var = r.central(2), vt = gen::tol<double>(n, 8 * mx * mx), t; int k = (int)s.draw(12);
    s.note("feature " + show(k));
    switch(k)
    {
    case 0: one<tag::weighted_sum>(st.v, w, [&](auto &a) { CHECK_NEAR(weighted_sum(a), r.sum, gen::tol<double>(n, r.asum), "weighted_sum"); }); break;
    case 1: one<tag::weighted_mean(lazy)>(st.v, w, [&](auto &a) { CHECK_NEAR(weighted_mean(a), r.mean(), gen::tol<double>(n, mx), "weighted_mean(lazy)"); }); break;
    case 2: one<tag::weighted_mean(immediate)>(st.v, w, [&](auto &a) { CHECK_NEAR(weighted_mean(a), r.mean(), gen::tol<double>(n, mx), "weighted_mean(immediate)"); }); break;
    case 3: one<tag::weighted_variance(lazy)>(st.v, w, [&](auto &a) { CHECK_NEAR(weighted_variance(a), var, vt, "weighted_variance(lazy)"); }); break;
    case 4: one<tag::weighted_variance(immediate)>(st.v, w, [&](auto &a) { CHECK_NEAR(weighted_variance(a), var, vt, "weighted_variance(immediate)"); }); break;
    case 5: { LD sk = r.central(3) / (var * sqrtl(var)); if(wshape_tol<double>(n, mx, var, 3, sk, t)) one<tag::weighted_skewness>(st.v, w, [&](auto &a) { CHECK_NEAR(weighted_skewness(a), sk, t, "weighted_skewness"); }); } break;
    case 6: { LD ku = r.central(4) / (var * var) - 3; if(wshape_tol<double>(n, mx, var, 4, ku, t)) one<tag::weighted_kurtosis>(st.v, w, [&](auto &a) { CHECK_NEAR(weighted_kurtosis(a), ku, t, "weighted_kurtosis"); }); } break;
    case 7: one<tag::sum_of_weights>(st.v, w, [&](auto &a) { CHECK_NEAR(sum_of_weights(a), r.sw, gen::tol<double>(n, r.sw), "sum_of_weights"); }); break;
    case 8: one<tag::mean_of_weights(lazy)>(st.v, w, [&](auto &a) { CHECK_NEAR(mean_of_weights(a), r.sw / n, gen::tol<double>(n, r.sw / n), "mean_of_weights(lazy)"); }); break;
    case 9: one<tag::mean_of_weights(immediate)>(st.v, w, [&](auto &a) { CHECK_NEAR(mean_of_weights(a), r.sw / n, gen::tol<double>(n, r.sw / n), "mean_of_weights(immediate)"); }); break;
    case 10: one<tag::weighted_moment<5> >(st.v, w, [&](auto &a) { CHECK_NEAR(weighted_moment<5>(a), r.moment(5), gen::tol<double>(n, gen::powi(mx, 5)), "weighted_moment<5>"); }); break;
    case 11: one<tag::weighted_moment<1> >(st.v, w, [&](auto &a) { CHECK_NEAR(weighted_moment<1>(a), r.mean(), gen::tol<double>(n, mx), "weighted_moment<1>"); }); break;
    }
    if(dw && dx) s.nontrivial();
}
