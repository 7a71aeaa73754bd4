#include "P11.hpp"
typedef std::vector<std::pair<LD, LD> > Cdf;
template<class R> Cdf cdf_of(R const &r) { Cdf c; for(auto const &p : r) c.push_back(std::make_pair((LD)p.first, (LD)p.second)); return c; }
inline std::string showc(Cdf const &c) { std::string r = "["; for(auto const &p : c) r += "(" + show((double)p.first) + "," + show((double)p.second) + ")"; return r + "]"; }
// where the reported piecewise linear distribution function crosses one half
inline LD half_point(Cdf const &c, LD mx, LD &amp)
{
    std::size_t i = 0; while(i + 1 < c.size() && c[i].second < 0.5L) ++i; if(i == 0) { amp = 1e-15L * mx; return c[0].first; }
    LD dy = c[i].second - c[i - 1].second; amp = 64e-16L * mx * (1 + 1 / dy); return c[i - 1].first + (c[i].first - c[i - 1].first) * (0.5L - c[i - 1].second) / dy;
}
inline void shape(Cdf const &c, std::size_t b, LD lo, LD hi, LD mx, std::string const &at)
{
    CHECK_EQ(c.size(), b + 1, "number of points"); LD t = 1e-10L * (mx + 1e-300L);
    CHECK_EQ(c[0].first, lo, "first abscissa is the minimum" + at); CHECK_EQ(c[b].first, hi, "last abscissa is the maximum" + at); CHECK_NEAR(c[b].second, 1, 1e-10L, "last ordinate is one" + at); CHECK_MSG(c[0].second > 0, "first ordinate is positive" + at);
    for(std::size_t i = 1; i <= b; ++i) { if(!(c[i - 1].first <= c[i].first + t)) fail("abscissae ascend" + at + " " + showc(c)); if(!(c[i - 1].second < c[i].second)) fail("ordinates ascend" + at + " " + showc(c)); }
}
inline std::size_t cells(Src &s) { switch(s.draw(48) == 47 ? 3 : s.draw(3)) { case 3: return s.flip() ? 1u << (6 + s.draw(3)) : 40 + s.draw(250); case 0: return 1u << (1 + s.draw(5)); case 1: return 2 + s.draw(6); default: return 2 + s.draw(30); } }
template<class T> void cumul(Src &s, long long imax)
{
    std::size_t b = cells(s); auto st = gen::stream<T>(s, imax, b + 1, 1500, psq_len(s) + (unsigned)b); std::size_t n = st.v.size(); psq::tidy(s, st.v); s.note("cells " + show(b) + " samples " + showv(st.v));
    accumulator_set<T, stats<tag::p_square_cumulative_distribution> > a(p_square_cumulative_distribution_num_cells = b); accumulator_set<T, stats<tag::median(with_p_square_cumulative_distribution)> > md(p_square_cumulative_distribution_num_cells = b), late(p_square_cumulative_distribution_num_cells = b);
    psq::Model m(psq::frac_cells(b), psq::pow2(b)); LD lo = INFINITY, hi = -INFINITY; std::size_t cmp = 0, step = 1 + n / 25;
    for(std::size_t i = 0; i < n; ++i)
    {
        T x = st.v[i]; a(x); md(x); late(x); m.add(x, 1); lo = std::min(lo, (LD)x); hi = std::max(hi, (LD)x); if(!m.ready()) continue; if(i >= b + 6 && i % step && i + 1 != n) continue;
        std::string at = " after sample " + show(i); Cdf c = cdf_of(p_square_cumulative_distribution(a)); shape(c, b, lo, hi, m.mx, at);
        LD amp, want = half_point(c, m.hscale(), amp), got = median(md); CHECK_NEAR(got, want, amp, "median" + at); CHECK_MSG(got >= lo - amp && got <= hi + amp, "median inside the range" + at);
        if(m.sure) { cmp = i + 1; for(std::size_t j = 0; j <= b; ++j) { CHECK_NEAR(c[j].first, m.h[j], 1e-9L * m.hscale(), "abscissa " + show(j) + at); CHECK_NEAR(c[j].second, m.pos[j] / m.W, 1e-9L, "ordinate " + show(j) + at); } }
    }
    CHECK_SAME((double)median(late), (double)median(md), "median asked for once, at the end"); psq_labels(s, m, cmp, n);
}
template<class T, class W> void cumul_w(Src &s, long long imax)
{
    std::size_t b = cells(s); auto st = gen::stream<T>(s, imax, b + 1, 1500, psq_len(s) + (unsigned)b); std::size_t n = st.v.size(); gen::WProfile wp = gen::wprofile(s, std::is_integral<W>::value); std::vector<W> w = gen::weights<W>(s, n, wp, false); psq::tidy(s, st.v, w, true); s.note("cells " + show(b) + " samples " + showv(st.v) + " weights " + showv(w));
    accumulator_set<T, stats<tag::weighted_p_square_cumulative_distribution>, W> a(p_square_cumulative_distribution_num_cells = b), one(p_square_cumulative_distribution_num_cells = b); accumulator_set<T, stats<tag::p_square_cumulative_distribution>, W> a2(p_square_cumulative_distribution_num_cells = b); accumulator_set<T, stats<tag::weighted_median(with_p_square_cumulative_distribution)>, W> md(p_square_cumulative_distribution_num_cells = b); accumulator_set<T, stats<tag::median(with_p_square_cumulative_distribution)>, W> md2(p_square_cumulative_distribution_num_cells = b);
    accumulator_set<T, stats<tag::p_square_cumulative_distribution> > plain(p_square_cumulative_distribution_num_cells = b);
    psq::Model m(psq::frac_cells(b), psq::pow2(b) && gen::wdyadic(wp, std::is_integral<W>::value)), u(psq::frac_cells(b), psq::pow2(b)); LD lo = INFINITY, hi = -INFINITY; std::size_t cmp = 0, step = 1 + n / 25; bool heavy = false;
    for(std::size_t i = 0; i < n; ++i)
    {
        T x = st.v[i]; a(x, weight = w[i]); a2(x, weight = w[i]); md(x, weight = w[i]); md2(x, weight = w[i]); one(x, weight = W(1)); plain(x); m.add(x, w[i]); u.add(x, 1); lo = std::min(lo, (LD)x); hi = std::max(hi, (LD)x); if(!m.ready()) continue; if(i >= b + 6 && i % step && i + 1 != n) continue;
        std::string at = " after sample " + show(i); Cdf c = cdf_of(weighted_p_square_cumulative_distribution(a)); shape(c, b, lo, hi, m.mx, at); CHECK_MSG(cdf_of(weighted_p_square_cumulative_distribution(a2)) == c, "asking for the unweighted feature in a weighted set");
        if(c[0].second >= 0.5L) heavy = true; LD amp, want = half_point(c, m.hscale(), amp), got = weighted_median(md); CHECK_NEAR(got, want, amp, "median" + at); CHECK_MSG(got >= lo - amp && got <= hi + amp, "median inside the range" + at); CHECK_SAME((double)median(md2), (double)got, "asking for the unweighted median in a weighted set");
        if(u.sure) { Cdf p = cdf_of(p_square_cumulative_distribution(plain)), q = cdf_of(weighted_p_square_cumulative_distribution(one)); for(std::size_t j = 0; j <= b; ++j) { CHECK_NEAR(q[j].first, p[j].first, 1e-9L * m.hscale(), "unit weights, abscissa" + at); CHECK_NEAR(q[j].second, p[j].second, 1e-9L, "unit weights, ordinate" + at); } }
        if(m.sure) { cmp = i + 1; for(std::size_t j = 0; j <= b; ++j) { CHECK_NEAR(c[j].first, m.h[j], 1e-9L * m.hscale(), "abscissa " + show(j) + at); CHECK_NEAR(c[j].second, m.pos[j] / m.W, 1e-9L, "ordinate " + show(j) + at); } }
    }
    if(heavy) s.label("minimum carries half the weight"); psq_labels(s, m, cmp, n);
}
