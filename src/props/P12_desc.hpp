#include "P12.hpp"
// the histogram of x (weights w, prefix of length n) with its bins fixed by the first cs samples
template<class T, class W> void check_hist(Hist const &h, std::vector<T> const &x, std::vector<W> const &w, std::size_t n, std::size_t cs, std::size_t nb, std::string const &at)
{
    CHECK_EQ(h.size(), nb + 2, "number of bins" + at); T lo = *std::min_element(x.begin(), x.begin() + cs), hi = *std::max_element(x.begin(), x.begin() + cs); LD bw = ((LD)hi - lo) / nb, mx = std::max(fabsl((LD)lo), fabsl((LD)hi)), e = gen::eps_of<T>::value();
    for(std::size_t i = 0; i < nb + 2; ++i) CHECK_NEAR(h[i].first, lo + ((LD)i - 1) * bw, 8 * e * (mx + fabsl(i * bw)) + 1e-300L, "lower bound of bin " + show(i) + at);
    std::vector<LD> in(nb + 2, 0); LD tot = 0; for(std::size_t i = 0; i < n; ++i) { LD v = x[i]; std::size_t b; if(v < h[1].first) b = 0; else { b = 1; while(b + 1 < nb + 2 && !(v < h[b + 1].first)) ++b; } in[b] += w[i]; tot += w[i]; }
    LD sum = 0; for(std::size_t i = 0; i < nb + 2; ++i) { sum += h[i].second; if(!(fabsl(h[i].second - in[i] / tot) <= 4 * (n + 8) * e)) fail("share of bin " + show(i) + at + ": got " + show(h[i].second) + " expected " + show(in[i] / tot) + " in " + showh(h)); } CHECK_NEAR(sum, 1, 8 * (n + nb + 8) * e, "the shares add up to one" + at);
}
// the point where half of the histogram mass is reached, bins interpolated linearly; a bin boundary at one half is either edge of the empty stretch, unless the shares are exact (a total that is a power of two)
inline bool pow2(LD t) { int x; return t > 0 && frexpl(t, &x) == 0.5L; }
inline void check_median(LD m, Hist const &h, LD e, std::string const &at, bool exact = false)
{
    std::size_t nb = h.size() - 2; LD cum = 0, mx = std::max(fabsl(h[0].first), fabsl(h[nb + 1].first)); std::size_t i = 0, used = 0; for(auto const &b : h) if(b.second > 0) ++used; LD const round = 4 * e * (used + 8), slack = exact ? 0 : round;
    auto up = [&](std::size_t j) { return j + 1 < h.size() ? h[j + 1].first : h[j].first + (h[j].first - h[j - 1].first); };
    for(; i < h.size(); ++i) { if(cum + h[i].second >= 0.5L - slack && h[i].second > 0) break; cum += h[i].second; } CHECK_MSG(i < h.size(), "half of the mass" + at);
    LD f = (0.5L - cum) / h[i].second, w = up(i) - h[i].first, t = (8 * e * mx + fabsl(w) * round / h[i].second) * 4 + 1e-300L, a = h[i].first + f * w; if(fabsl(m - a) <= t) return;
    if(fabsl(cum + h[i].second - 0.5L) <= slack) { std::size_t j = i + 1; while(j < h.size() && h[j].second == 0) ++j; if(fabsl(m - up(i)) <= t || (!exact && j < h.size() && fabsl(m - h[j].first) <= t + 4 * fabsl(w) * round / h[j].second)) return; }
    fail("median" + at + ": got " + show(m) + " expected " + show(a) + " +- " + show(t) + " in " + showh(h));
}
inline std::size_t bins(Src &s) { switch(s.draw(48) == 47 ? 3 : s.draw(3)) { case 3: return 60 + s.draw(500); case 0: return 1 + s.draw(4); case 1: return 1u << s.draw(6); default: return 1 + s.draw(40); } }
inline std::size_t csize(Src &s) { switch(s.draw(48) == 47 ? 3 : s.draw(3)) { case 3: return 100 + s.draw(450); case 0: return 1 + s.draw(4); case 1: return 1 + s.draw(20); default: return 1 + s.draw(80); } }
template<class T> void density_model(Src &s, long long imax)
{
    std::size_t nb = bins(s), cs = csize(s); auto st = gen::stream<T>(s, imax, cs, 600); std::size_t n = st.v.size(); s.note("bins " + show(nb) + " cache " + show(cs) + " samples " + showv(st.v));
    accumulator_set<T, stats<tag::density> > a(tag::density::cache_size = cs, tag::density::num_bins = nb); accumulator_set<T, stats<tag::density, tag::median(with_density)> > md(density_cache_size = cs, density_num_bins = nb), late(density_num_bins = nb, density_cache_size = cs); std::vector<int> one(n, 1); unsigned every = 1 + (unsigned)s.draw(10) + (unsigned)n / 8; bool outer = false, edge = false, of = false;
    for(std::size_t i = 0; i < n; ++i)
    {
        a(st.v[i]); md(st.v[i]); late(st.v[i]); if(i + 1 < cs || (i % every && i + 1 != n && i + 1 != cs && !pow2(i + 1))) continue; std::string at = " after sample " + show(i);
        Hist h = hist_of(density(a)); check_hist(h, st.v, one, i + 1, cs, nb, at); CHECK_MSG(hist_of(density(md)) == h, "same histogram next to a median" + at); check_median(median(md), h, gen::eps_of<T>::value(), at, pow2(i + 1));
        if(h[0].second > 0) outer = true; LD c = 0; for(std::size_t j = 0; j <= nb; ++j) c += h[j].second; if(c < 0.499L) of = true; if(i >= cs) for(std::size_t j = 1; j < nb + 2; ++j) if(h[j].first == (LD)st.v[i]) edge = true;
    }
    CHECK_SAME((double)median(late), (double)median(md), "median asked for once, at the end"); CHECK_MSG(hist_of(density(late)) == hist_of(density(a)), "histogram asked for once, at the end");
    if(outer) s.label("underflow bin used"); if(of) s.label("median in the overflow bin"); if(edge) s.label("sample on a bin bound"); if(n > cs && *std::min_element(st.v.begin(), st.v.begin() + cs) != *std::max_element(st.v.begin(), st.v.begin() + cs)) s.nontrivial();
}
template<class T, class W> void weighted_density_model(Src &s, long long imax)
{
    std::size_t nb = bins(s), cs = csize(s); auto st = gen::stream<T>(s, imax, cs, 600); std::size_t n = st.v.size(); gen::WProfile wp = gen::wprofile(s, std::is_integral<W>::value); std::vector<W> w = gen::weights<W>(s, n, wp, true); s.note("bins " + show(nb) + " cache " + show(cs) + " samples " + showv(st.v) + " weights " + showv(w));
    accumulator_set<T, stats<tag::weighted_density>, W> a(tag::weighted_density::cache_size = cs, tag::weighted_density::num_bins = nb); accumulator_set<T, stats<tag::density, tag::median(with_density)>, W> md(density_cache_size = cs, density_num_bins = nb); accumulator_set<T, stats<tag::weighted_density, tag::weighted_median(with_density)>, W> late(density_num_bins = nb, density_cache_size = cs); unsigned every = 1 + (unsigned)s.draw(10) + (unsigned)n / 8; bool outer = false, of = false, wd = gen::wdyadic(wp, std::is_integral<W>::value); LD tot = 0;
    for(std::size_t i = 0; i < n; ++i)
    {
        a(st.v[i], weight = w[i]); tot += w[i]; md(st.v[i], weight = w[i]); late(st.v[i], weight = w[i]); if(i + 1 < cs || (i % every && i + 1 != n && i + 1 != cs)) continue; std::string at = " after sample " + show(i);
        Hist h = hist_of(weighted_density(a)); check_hist(h, st.v, w, i + 1, cs, nb, at); CHECK_MSG(hist_of(density(md)) == h, "asking for the unweighted feature in a weighted set" + at); check_median(median(md), h, 2.3e-16L * (1 + (LD)i), at, wd && pow2(tot));
        if(h[0].second > 0) outer = true; LD c = 0; for(std::size_t j = 0; j <= nb; ++j) c += h[j].second; if(c < 0.499L) of = true;
    }
    CHECK_SAME((double)weighted_median(late), (double)median(md), "median asked for once, at the end"); CHECK_MSG(hist_of(weighted_density(late)) == hist_of(weighted_density(a)), "histogram asked for once, at the end");
    if(outer) s.label("underflow bin used"); if(of) s.label("median in the overflow bin"); if(n > cs && wp.kind && *std::min_element(st.v.begin(), st.v.begin() + cs) != *std::max_element(st.v.begin(), st.v.begin() + cs)) s.nontrivial();
}
