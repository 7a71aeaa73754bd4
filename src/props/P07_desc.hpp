#include "P07.hpp"
// quantile and tail means of a prefix, asked for with several probabilities
template<class T, class LR> void order_stats(Src &s, long long imax)
{
    std::size_t cache = cache_sz(s); auto st = gen::stream<T>(s, imax, 1, 600); unsigned every = 1 + (unsigned)s.draw(20) + (unsigned)st.v.size() / 10;
    s.note("cache " + show(cache) + " samples " + showv(st.v));
    accumulator_set<T, stats<tag::tail_quantile<LR>, tag::coherent_tail_mean<LR>, tag::non_coherent_tail_mean<LR> > > a(tag::tail<LR>::cache_size = cache);
    accumulator_set<T, stats<tag::tail_quantile<LR> > > b(tag::tail<LR>::cache_size = cache); accumulator_set<T, stats<tag::non_coherent_tail_mean<LR> > > c(tag::tail<LR>::cache_size = cache);
    std::vector<T> sorted; bool inner = false, edge = false, refuse = false, whole = false;
    for(std::size_t i = 0; i < st.v.size(); ++i)
    {
        T x = st.v[i]; a(x); b(x); c(x); sorted.insert(std::upper_bound(sorted.begin(), sorted.end(), x, [](T p, T q) { return dir<LR>::before(p, q); }), x);
        if(i % every && i + 1 != st.v.size()) continue;
        std::size_t cnt = i + 1, have = std::min(cnt, cache); LD mx = gen::maxabs(sorted);
        for(int rep = 0; rep < 2; ++rep)
        {
            bool dy; double p = prob(s, dy), lv = dir<LR>::level(p); std::size_t n; if(!rank_of(cnt, lv, dy, n)) continue;
            std::string at = " p=" + show(p) + " count=" + show(cnt) + " rank=" + show(n);
            if(n <= have)
            {
                if(n == have) { edge = true; if(have == cnt) whole = true; }  else inner = true;
                CHECK_EQ((T)quantile(a, quantile_probability = p), sorted[n - 1], "quantile" + at); CHECK_EQ((T)quantile(b, quantile_probability = p), sorted[n - 1], "quantile" + at);
                LD sum = 0; for(std::size_t k = 0; k < n; ++k) sum += sorted[k]; LD m = sum / n, coh = m + (LD)sorted[n - 1] / n * (lv - (LD)n / cnt);
                CHECK_NEAR(non_coherent_tail_mean(a, quantile_probability = p), m, gen::tol<T>(n, mx), "non-coherent tail mean" + at); CHECK_NEAR(non_coherent_tail_mean(c, quantile_probability = p), m, gen::tol<T>(n, mx), "non-coherent tail mean" + at);
                CHECK_NEAR(coherent_tail_mean(a, quantile_probability = p), coh, gen::tol<T>(n, 4 * mx), "coherent tail mean" + at);
                CHECK_NEAR(tail_mean(a, quantile_probability = p), coh, gen::tol<T>(n, 4 * mx), "tail mean" + at);
            }
            else
            {
                refuse = true;
                if(std::numeric_limits<T>::has_quiet_NaN)
                {
                    CHECK_MSG(std::isnan((double)quantile(a, quantile_probability = p)), "quantile beyond the cache is not a number" + at); CHECK_MSG(std::isnan((double)coherent_tail_mean(a, quantile_probability = p)), "coherent tail mean beyond the cache is not a number" + at);
                }
                else { bool threw = false; try { (void)quantile(a, quantile_probability = p); } catch(std::runtime_error const &) { threw = true; } CHECK_MSG(threw, "quantile beyond the cache throws" + at); }
                CHECK_MSG(std::isnan((double)non_coherent_tail_mean(a, quantile_probability = p)), "tail mean beyond the cache is not a number" + at);
            }
        }
    }
    if(inner) s.label("rank inside the cache"); if(edge) s.label("rank equals the cache"); if(refuse) s.label("rank beyond the cache"); if(whole) s.label("rank equals the count");
    if((inner || edge) && sorted.front() != sorted.back()) s.nontrivial();
}
