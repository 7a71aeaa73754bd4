// tail variate means
#include "P07.hpp"
template<class LR> void variate_means(Src &s)
{
    std::size_t cache = cache_sz(s), dim = 1 + s.draw(3); auto st = gen::stream<double>(s, 0, 1, 300); unsigned every = 1 + (unsigned)s.draw(20) + (unsigned)st.v.size() / 6; gen::Profile vp = gen::profile(s, false, 6);
    s.note("cache " + show(cache) + " samples " + showv(st.v));
    accumulator_set<double, stats<tag::tail_variate_means<LR, Vec, tag::covariate1>(absolute), tag::tail_variate_means<LR, Vec, tag::covariate1>(relative) > > a(tag::tail<LR>::cache_size = cache);
    accumulator_set<double, stats<tag::absolute_tail_variate_means<LR, Vec, tag::covariate1> > > b(tag::tail<LR>::cache_size = cache);
    std::vector<std::pair<double, Vec> > seen; bool ok = false, refuse = false, rel = false;
    for(std::size_t i = 0; i < st.v.size(); ++i)
    {
        Vec y; for(std::size_t d = 0; d < dim; ++d) y.push_back(gen::value(s, vp, false, 0));
        a(st.v[i], covariate1 = y); b(st.v[i], covariate1 = y); seen.push_back(std::make_pair(st.v[i], y));
        if(i % every && i + 1 != st.v.size()) continue;
        std::vector<std::pair<double, Vec> > o(seen); std::stable_sort(o.begin(), o.end(), [](auto const &p, auto const &q) { return dir<LR>::before(p.first, q.first); });
        std::size_t cnt = o.size(), have = std::min(cnt, cache), n; bool dy; double p = prob(s, dy); if(!rank_of(cnt, dir<LR>::level(p), dy, n)) continue;
        std::string at = " p=" + show(p) + " count=" + show(cnt) + " rank=" + show(n);
        auto ra = tail_variate_means(a, quantile_probability = p); Vec abs_(ra.begin(), ra.end()); auto rb = tail_variate_means(b, quantile_probability = p); Vec abs2(rb.begin(), rb.end()); auto rr = relative_tail_variate_means(a, quantile_probability = p); Vec rel_(rr.begin(), rr.end());
        CHECK_EQ(abs_.size(), dim, "number of means"); CHECK_EQ(rel_.size(), dim, "number of relative means"); CHECK_EQ(abs2.size(), dim, "number of means");
        if(n > have) { refuse = true; for(std::size_t d = 0; d < dim; ++d) { CHECK_MSG(std::isnan(abs_[d]) && std::isnan(abs2[d]), "absolute mean beyond the cache is not a number" + at); CHECK_MSG(std::isnan(rel_[d]), "relative mean beyond the cache is not a number" + at); } continue; }
        ok = true; LD nctm = 0, mx = 0; for(std::size_t k = 0; k < n; ++k) { nctm += o[k].first; mx = std::max(mx, fabsl((LD)o[k].first)); } nctm /= n;
        // samples equal to the boundary value are interchangeable: bounds over their variates
        double bd = o[n - 1].first; std::size_t f = 0, l = n; while(o[f].first != bd) ++f; while(l < cnt && o[l].first == bd) ++l;
        for(std::size_t d = 0; d < dim; ++d)
        {
            LD fix = 0, my = 0; for(std::size_t k = 0; k < l; ++k) my = std::max(my, fabsl((LD)o[k].second[d])); for(std::size_t k = 0; k < f; ++k) fix += o[k].second[d];
            Vec g; for(std::size_t k = f; k < l; ++k) g.push_back(o[k].second[d]); std::sort(g.begin(), g.end()); LD lo = fix, hi = fix; for(std::size_t k = 0; k < n - f; ++k) { lo += g[k]; hi += g[g.size() - 1 - k]; } lo /= n; hi /= n;
            LD t = gen::tol<double>(n, my); CHECK_MSG(abs_[d] >= lo - t && abs_[d] <= hi + t, "absolute mean of component " + show(d) + at + ": got " + show(abs_[d]) + " expected " + show(lo) + ".." + show(hi));
            CHECK_NEAR(abs2[d], abs_[d], t + (hi - lo), "absolute mean, set of its own" + at);
            if(fabsl(nctm) > 1e-3L * mx) { rel = true; CHECK_NEAR(rel_[d], abs_[d] / nctm, gen::tol<double>(n, 4 * my * mx / (nctm * nctm) + my / fabsl(nctm)), "relative mean of component " + show(d) + at); }
        }
    }
    if(ok) s.label("rank inside the cache"); if(refuse) s.label("rank beyond the cache"); if(rel) s.label("relative compared"); if(ok && st.v.size() > 1) s.nontrivial();
}
PBT(variate_means_right, 2, "two or more samples, some rank inside the cache") { variate_means<right>(s); }
PBT(variate_means_left, 2, "two or more samples, some rank inside the cache") { variate_means<left>(s); }
