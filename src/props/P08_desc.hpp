#include "P08.hpp"
template<class T, class W, class LR> void worder(Src &s, long long imax)
{
    bool const wint = std::is_integral<W>::value; std::size_t cache = cache_sz(s), dim = 1 + s.draw(2); auto st = gen::stream<T>(s, imax, 1, 300); gen::WProfile wp = gen::wprofile(s, wint); bool const single = std::is_same<W, float>::value; bool wex = gen::wdyadic(wp, wint) && !single;
    // distinct samples: the order of equal samples (and with it their weights) is not specified
    std::set<T> u; std::vector<T> xs; for(T x : st.v) if(u.insert(x).second) xs.push_back(x);
    std::vector<W> ws = gen::weights<W>(s, xs.size(), wp); unsigned every = 1 + (unsigned)s.draw(20) + (unsigned)xs.size() / 6; s.note("cache " + show(cache) + " samples " + showv(xs) + " weights " + showv(ws));
    accumulator_set<T, stats<tag::weighted_tail_quantile<LR>, tag::non_coherent_weighted_tail_mean<LR>, tag::weighted_tail_variate_means<LR, Vec, tag::covariate1>(absolute), tag::weighted_tail_variate_means<LR, Vec, tag::covariate1>(relative) >, W> a(tag::tail<LR>::cache_size = cache);
    accumulator_set<T, stats<tag::tail_quantile<LR>, tag::non_coherent_tail_mean<LR> >, W> b(tag::tail<LR>::cache_size = cache);
    std::vector<Item> seen; bool ok = false, refuse = false, dw = false;
    for(std::size_t i = 0; i < xs.size(); ++i)
    {
        Vec y; for(std::size_t d = 0; d < dim; ++d) y.push_back((double)s.signedint(64) / 4);
        a(xs[i], weight = ws[i], covariate1 = y); b(xs[i], weight = ws[i]); seen.push_back(Item{(double)xs[i], (LD)ws[i], y}); if(ws[i] != ws[0]) dw = true;
        if(i % every && i + 1 != xs.size()) continue;
        std::vector<Item> o(seen); sort_tail<LR>(o); std::size_t cnt = o.size(), have = std::min(cnt, cache), n; bool dy; double p = prob(s, dy, !single); if(!wrank(o, dir<LR>::level(p), dy && wex, n, single ? 1e-4L : 1e-9L)) continue;
        std::string at = " p=" + show(p) + " count=" + show(cnt) + " rank=" + show(n);
        auto ra = extract_result<tag::absolute_weighted_tail_variate_means<LR, Vec, tag::covariate1> >(a, quantile_probability = p); Vec abs_(ra.begin(), ra.end()); auto rr = extract_result<tag::relative_weighted_tail_variate_means<LR, Vec, tag::covariate1> >(a, quantile_probability = p); Vec rel_(rr.begin(), rr.end());
        CHECK_EQ(abs_.size(), dim, "number of means"); CHECK_EQ(rel_.size(), dim, "number of means");
        if(n > have || (n == cnt && have < cnt))
        {
            refuse = true; for(std::size_t d = 0; d < dim; ++d) CHECK_MSG(std::isnan(abs_[d]) && std::isnan(rel_[d]), "variate mean beyond the cache is not a number" + at);
            CHECK_MSG(std::isnan((double)non_coherent_tail_mean(a, quantile_probability = p)), "tail mean beyond the cache is not a number" + at);
            if(std::numeric_limits<T>::has_quiet_NaN) CHECK_MSG(std::isnan((double)quantile(a, quantile_probability = p)), "quantile beyond the cache is not a number" + at);
            else { bool threw = false; try { (void)quantile(a, quantile_probability = p); } catch(std::runtime_error const &) { threw = true; } CHECK_MSG(threw, "quantile beyond the cache throws" + at); }
            continue;
        }
        ok = true; LD sw = 0, sx = 0, mx = 0; for(std::size_t k = 0; k < n; ++k) { sw += o[k].w; sx += o[k].w * o[k].x; mx = std::max(mx, fabsl((LD)o[k].x)); } LD m = sx / sw;
        CHECK_EQ((double)quantile(a, quantile_probability = p), o[n - 1].x, "quantile" + at); CHECK_EQ((double)quantile(b, quantile_probability = p), o[n - 1].x, "quantile" + at);
        CHECK_NEAR(non_coherent_tail_mean(a, quantile_probability = p), m, gen::tol<T>(n, 2 * mx), "tail mean" + at); CHECK_NEAR(non_coherent_tail_mean(b, quantile_probability = p), m, gen::tol<T>(n, 2 * mx), "tail mean" + at);
        for(std::size_t d = 0; d < dim; ++d)
        {
            LD sy = 0; for(std::size_t k = 0; k < n; ++k) sy += o[k].w * o[k].y[d]; sy /= sw;
            CHECK_NEAR(abs_[d], sy, gen::tol<T>(n, 32), "absolute mean of component " + show(d) + at); if(fabsl(m) > 1e-3L * mx) CHECK_NEAR(rel_[d], sy / m, gen::tol<T>(n, 64 * mx / (m * m) + 64 / fabsl(m)), "relative mean of component " + show(d) + at);
        }
    }
    if(ok) s.label("rank inside the cache"); if(refuse) s.label("rank beyond the cache"); if(dw) s.label("weights differ"); if(ok && dw && xs.size() > 2) s.nontrivial();
}
