// integer weights mean repetition; a unit weight changes nothing; the scale of the weights does not matter;
// an unweighted feature named in a weighted set is its weighted counterpart
#include "P02.hpp"
template<class S> void feed(S &a, std::vector<double> const &v, std::vector<int> const &w, double c) { for(std::size_t i = 0; i < v.size(); ++i) a(v[i], weight = w[i] * c); }
PBT(replication, 3, "some weight is 2 or more and samples differ")
{
    auto st = gen::stream<double>(s, 0, 1, 400); auto wp = gen::wprofile(s, true); auto w = gen::weights<int>(s, st.v.size(), wp);
    s.note("samples " + showv(st.v)); s.note("weights " + showv(w));
    typedef accumulator_set<double, stats<tag::mean, tag::immediate_mean, tag::variance, tag::lazy_variance, tag::skewness, tag::kurtosis, tag::moment<2>, tag::moment<3>, tag::sum, tag::count> > U;
    typedef accumulator_set<double, stats<tag::mean, tag::immediate_mean, tag::variance, tag::lazy_variance, tag::skewness, tag::kurtosis, tag::moment<2>, tag::moment<3>, tag::sum, tag::count, tag::sum_of_weights>, double> Wt;
    U u; Wt a, b; double c = std::ldexp(1.0, (int)s.signedint(8)); LD mx = gen::maxabs(st.v); std::size_t n = 0; bool rep = false, differ = false;
    for(std::size_t i = 0; i < st.v.size(); ++i) { for(int k = 0; k < w[i]; ++k) { u(st.v[i]); ++n; } if(w[i] > 1) rep = true; if(st.v[i] != st.v[0]) differ = true; }
    feed(a, st.v, w, 1); feed(b, st.v, w, c);
    CHECK_EQ((double)sum_of_weights(a), (double)n, "sum of weights"); CHECK_EQ((double)sum_of_weights(b), n * c, "sum of scaled weights");
    CHECK_EQ(count(u), n, "count"); CHECK_EQ(count(a), st.v.size(), "count does not depend on weights");
    CHECK_NEAR(sum(a), sum(u), gen::tol<double>(n, mx * n), "sum");
    for(Wt *p : { &a, &b })
    {
        Wt &x = *p;
        CHECK_NEAR(extract_result<tag::mean>(x), extract_result<tag::mean>(u), gen::tol<double>(n, mx), "mean");
        CHECK_NEAR(extract_result<tag::immediate_mean>(x), extract_result<tag::mean>(u), gen::tol<double>(n, mx), "immediate mean");
        CHECK_NEAR(extract_result<tag::variance>(x), extract_result<tag::variance>(u), gen::tol<double>(n, 8 * mx * mx), "variance");
        CHECK_NEAR(extract_result<tag::lazy_variance>(x), extract_result<tag::lazy_variance>(u), gen::tol<double>(n, 8 * mx * mx), "lazy variance");
        CHECK_NEAR(moment<2>(x), moment<2>(u), gen::tol<double>(n, mx * mx), "moment<2>"); CHECK_NEAR(moment<3>(x), moment<3>(u), gen::tol<double>(n, mx * mx * mx), "moment<3>");
        LD t, var = extract_result<tag::variance>(u);
        if(wshape_tol<double>(n, mx, var, 3, skewness(u), t)) CHECK_NEAR(skewness(x), skewness(u), 2 * t, "skewness");
        if(wshape_tol<double>(n, mx, var, 4, kurtosis(u), t)) CHECK_NEAR(kurtosis(x), kurtosis(u), 2 * t, "kurtosis");
    }
    if(rep && differ) s.nontrivial(); if(c != 1) s.label("scaled weights");
}
