#include "P10.hpp"
struct unit {};
// Interpolation oracle over the grid: Neville, independent of the code's formula. bound: rounding allowance.
inline bool interp(std::vector<double> const &p, std::vector<double> const &h, double q, bool quad, LD &r, LD &amp)
{
    std::size_t k = p.size(), d = std::lower_bound(p.begin(), p.end(), q) - p.begin(); LD mh = gen::maxabs(h);
    if(p[d] == q) { r = h[d]; amp = 0; return true; }
    if(!quad) { r = h[d - 1] + ((LD)h[d] - h[d - 1]) * ((LD)q - p[d - 1]) / ((LD)p[d] - p[d - 1]); amp = 64e-16L * mh / ((LD)p[d] - p[d - 1]); return true; }
    LD up = (LD)p[d] - q, dn = (LD)q - p[d - 1]; bool edge = d == 1 || d == k - 1; if(!edge && fabsl(up - dn) < 1e-12L) return false; // tie: either triple
    bool upper = (d == 1 || up <= dn) && d != k - 1; std::size_t j = upper ? d - 1 : d - 2;
    LD x0 = p[j], x1 = p[j + 1], x2 = p[j + 2]; LD a = ((q - x1) * h[j] - (q - x0) * h[j + 1]) / (x0 - x1), b = ((q - x2) * h[j + 1] - (q - x1) * h[j + 2]) / (x1 - x2); r = ((q - x2) * a - (q - x0) * b) / (x0 - x2);
    LD g = std::min(x1 - x0, x2 - x1); amp = 64e-16L * mh / (g * g) / std::min((LD)1, x2 - x0); return true;
}
template<class T, class W, bool Weighted> void extended(Src &s, long long imax)
{
    bool dy; std::vector<double> p = grid(s, dy); std::size_t k = p.size(), M = 2 * k + 3; unsigned ml = psq_len(s); auto st = gen::stream<T>(s, imax, M, 1500, ml + (unsigned)M); std::size_t n = st.v.size();
    gen::WProfile wp; wp.kind = 0; std::vector<W> w(n, W(1)); if(Weighted) { wp = gen::wprofile(s, std::is_integral<W>::value); w = gen::weights<W>(s, n, wp, false); } psq::tidy(s, st.v, w, Weighted);
    s.note("probabilities " + showv(p) + " samples " + showv(st.v) + (Weighted ? " weights " + showv(w) : ""));
    accumulator_set<T, stats<tag::extended_p_square> > plain(extended_p_square_probabilities = p);
    accumulator_set<T, stats<tag::weighted_extended_p_square>, W> wa(extended_p_square_probabilities = p); accumulator_set<T, stats<tag::extended_p_square>, W> wb(extended_p_square_probabilities = p), one(extended_p_square_probabilities = p);
    psq::Model m(psq::frac_extended(p), dy && gen::wdyadic(wp, std::is_integral<W>::value)), u(psq::frac_extended(p), dy); LD lo = INFINITY, hi = -INFINITY; std::size_t cmp = 0, step = 1 + n / 30;
    for(std::size_t i = 0; i < n; ++i)
    {
        T x = st.v[i]; plain(x); if(Weighted) { wa(x, weight = w[i]); wb(x, weight = w[i]); one(x, weight = W(1)); } m.add(x, w[i]); u.add(x, 1); lo = std::min(lo, (LD)x); hi = std::max(hi, (LD)x); if(!m.ready()) continue; if(i >= M + 10 && i % step && i + 1 != n) continue;
        std::vector<double> h = Weighted ? heights_of(wa, weighted_extended_p_square) : heights_of(plain, extended_p_square); LD t = 1e-10L * m.hscale(); std::string at = " after sample " + show(i);
        CHECK_EQ(h.size(), k, "number of estimates"); if(Weighted) CHECK_MSG(heights_of(wb, weighted_extended_p_square) == h, "asking for the unweighted feature in a weighted set");
        for(std::size_t j = 0; j < k; ++j) { CHECK_MSG(h[j] >= lo - t && h[j] <= hi + t, "estimate " + show(h[j]) + " inside the sample range" + at); if(j) CHECK_MSG(h[j - 1] <= h[j] + t, "estimates ascend with the probability" + at); }
        if(Weighted && u.sure) { std::vector<double> ho = heights_of(one, weighted_extended_p_square), hp = heights_of(plain, extended_p_square); for(std::size_t j = 0; j < k; ++j) CHECK_NEAR(ho[j], hp[j], 1e-9L * m.hscale(), "unit weights" + at); }
        if(m.sure) { cmp = i + 1; for(std::size_t j = 0; j < k; ++j) CHECK_NEAR(h[j], m.h[2 * j + 2], 1e-9L * m.hscale(), "estimate " + show(j) + at); }
    }
    if(k == 1) s.label("one probability"); if(Weighted && wp.kind) s.label("weights differ"); psq_labels(s, m, cmp, n);
}
template<bool Weighted, class A, class B> void ask(Src &s, A const &lin, B const &qd, std::vector<double> const &p, std::vector<double> const &h, std::vector<double> const &h2, bool &inner, bool &outer, bool &onit)
{
    for(int r = 0; r < 4; ++r)
    {
        double q; switch(s.draw(4)) { case 0: q = p[s.draw(p.size())]; onit = true; break; case 1: q = gen::real01(s); break; case 2: q = (double)s.integer(0, 64) / 64; break; default: { std::size_t j = s.draw(p.size() - 1); q = p[j] + (p[j + 1] - p[j]) * gen::real01(s); } }
        double e = quantile(lin, quantile_probability = q), f = quantile(qd, quantile_probability = q); std::string at = " at probability " + show(q);
        if(q < p.front() || q > p.back()) { outer = true; CHECK_MSG(std::isnan(e), "linear outside the grid is not a number" + at); CHECK_MSG(std::isnan(f), "quadratic outside the grid is not a number" + at); continue; }
        LD x, amp; inner = true; if(interp(p, h, q, false, x, amp)) CHECK_NEAR(e, x, amp, "linear" + at); if(interp(p, h2, q, true, x, amp)) CHECK_NEAR(f, x, amp, "quadratic" + at);
    }
}
