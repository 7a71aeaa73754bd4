#include "P07.hpp"
// streams longer than any 16-bit counter
template<class LR> void long_order(Src &s)
{
    gen::Long l = gen::long_stream(s); std::size_t cache = 200 + s.draw(3000); s.note(l.note + " cache " + show(cache)); accumulator_set<double, stats<tag::tail_quantile<LR>, tag::coherent_tail_mean<LR>, tag::non_coherent_tail_mean<LR> > > a(tag::tail<LR>::cache_size = cache);
    std::vector<double> o(l.v); for(double x : l.v) a(x); std::sort(o.begin(), o.end(), [](double p, double q) { return dir<LR>::before(p, q); }); std::size_t cnt = o.size(); LD mx = gen::maxabs(o);
    for(int r = 0; r < 8; ++r)
    {
        double lv = (1 + s.draw(cache + cache / 4)) / (double)cnt * (0.4 + 0.6 * gen::real01(s)), p = std::is_same<LR, left>::value ? lv : 1 - lv; if(!(p > 0 && p < 1)) continue; lv = dir<LR>::level(p); std::size_t n; if(!rank_of(cnt, lv, false, n)) continue; std::string at = " p=" + show(p) + " count=" + show(cnt) + " rank=" + show(n);
        if(n > cache) { CHECK_MSG(std::isnan(quantile(a, quantile_probability = p)), "beyond the cache" + at); continue; }
        CHECK_EQ(quantile(a, quantile_probability = p), o[n - 1], "quantile" + at); LD sum = 0; for(std::size_t k = 0; k < n; ++k) sum += o[k]; LD m = sum / n, coh = m + (LD)o[n - 1] / n * (lv - (LD)n / cnt);
        CHECK_NEAR(non_coherent_tail_mean(a, quantile_probability = p), m, gen::tol<double>(n, mx), "non-coherent tail mean" + at); CHECK_NEAR(coherent_tail_mean(a, quantile_probability = p), coh, gen::tol<double>(n, 4 * mx), "coherent tail mean" + at); s.nontrivial();
    }
}
PBT(long_left, 0.002, "more than 65536 samples and a rank inside the cache") { long_order<left>(s); }
PBT(long_right, 0.002, "more than 65536 samples and a rank inside the cache") { long_order<right>(s); }
