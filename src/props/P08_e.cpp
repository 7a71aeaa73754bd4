// integer weights are repetitions; unit weights change nothing (ties included: equal values are interchangeable for a quantile)
#include "P08.hpp"
template<class LR> void repeated(Src &s)
{
    auto st = gen::stream<double>(s, 0, 1, 120); gen::WProfile wp = gen::wprofile(s, true); std::vector<int> w = gen::weights<int>(s, st.v.size(), wp); s.note("samples " + showv(st.v) + " weights " + showv(w));
    accumulator_set<double, stats<tag::tail_quantile<LR> > > u(tag::tail<LR>::cache_size = 2000); accumulator_set<double, stats<tag::tail_quantile<LR> >, double> v(tag::tail<LR>::cache_size = 2000); accumulator_set<double, stats<tag::tail_quantile<LR>, tag::non_coherent_tail_mean<LR> >, double> one(tag::tail<LR>::cache_size = 2000);
    accumulator_set<double, stats<tag::tail_quantile<LR>, tag::non_coherent_tail_mean<LR> > > plain(tag::tail<LR>::cache_size = 2000); bool rep = false; std::size_t tot = 0;
    for(std::size_t i = 0; i < w.size(); ++i) { for(int k = 0; k < w[i]; ++k) { u(st.v[i]); ++tot; } v(st.v[i], weight = (double)w[i]); one(st.v[i], weight = 1.0); plain(st.v[i]); rep |= w[i] > 1; }
    for(int r = 0; r < 3; ++r)
    {
        bool dy; double p = prob(s, dy); std::size_t n; if(rank_of(tot, dir<LR>::level(p), dy, n)) CHECK_EQ((double)quantile(v, quantile_probability = p), (double)quantile(u, quantile_probability = p), "quantile of repeated samples, p=" + show(p));
        if(!rank_of(w.size(), dir<LR>::level(p), dy, n)) continue;
        CHECK_EQ((double)quantile(one, quantile_probability = p), (double)quantile(plain, quantile_probability = p), "quantile with unit weights, p=" + show(p)); CHECK_NEAR(non_coherent_tail_mean(one, quantile_probability = p), non_coherent_tail_mean(plain, quantile_probability = p), gen::tol<double>(n, gen::maxabs(st.v)), "tail mean with unit weights, p=" + show(p));
    }
    if(rep && w.size() > 2) s.nontrivial();
}
PBT(repeat_right, 1, "some weight of two or more, three or more samples") { repeated<right>(s); }
PBT(repeat_left, 1, "some weight of two or more, three or more samples") { repeated<left>(s); }
