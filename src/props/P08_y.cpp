#include "P08.hpp"
// streams longer than any 16-bit counter
template<class LR> void long_order(Src &s)
{
    gen::Long l = gen::long_stream(s); std::size_t cache = 200 + s.draw(3000); s.note(l.note + " cache " + show(cache)); accumulator_set<double, stats<tag::weighted_tail_quantile<LR>, tag::non_coherent_weighted_tail_mean<LR> >, double> a(tag::tail<LR>::cache_size = cache);
    std::set<double> u; std::vector<Item> o; LD tot = 0, mx = gen::maxabs(l.v); for(std::size_t i = 0; i < l.v.size(); ++i) if(u.insert(l.v[i]).second) { a(l.v[i], weight = l.w[i]); o.push_back(Item{l.v[i], (LD)l.w[i], Vec()}); tot += l.w[i]; } sort_tail<LR>(o);
    for(int r = 0; r < 8; ++r)
    {
        double lv = (1 + s.draw(cache + cache / 4)) / (double)o.size() * (0.4 + 0.6 * gen::real01(s)), p = std::is_same<LR, left>::value ? lv : 1 - lv; if(!(p > 0 && p < 1)) continue; lv = dir<LR>::level(p); std::size_t n; if(!wrank(o, lv, false, n)) continue; std::string at = " p=" + show(p) + " rank=" + show(n);
        if(n > cache) { CHECK_MSG(std::isnan(quantile(a, quantile_probability = p)), "beyond the cache" + at); continue; } if(n == 0) continue;
        CHECK_EQ(quantile(a, quantile_probability = p), o[n - 1].x, "weighted quantile" + at); LD sum = 0, sw = 0; for(std::size_t k = 0; k < n; ++k) { sum += o[k].w * o[k].x; sw += o[k].w; } CHECK_NEAR(non_coherent_tail_mean(a, quantile_probability = p), sum / sw, gen::tol<double>(n, mx), "weighted tail mean" + at); s.nontrivial();
    }
}
PBT(long_left, 0.002, "more than 65536 samples and a rank inside the cache") { long_order<left>(s); }
PBT(long_right, 0.002, "more than 65536 samples and a rank inside the cache") { long_order<right>(s); }
