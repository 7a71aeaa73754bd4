// interpolated quantiles: unweighted and weighted, linear and quadratic, against the estimates at the grid
#include "P10_desc.hpp"
PBT(interpolated, 2, "a probability inside the grid and off the grid points")
{
    bool dy; std::vector<double> p = grid(s, dy, 3); auto st = gen::stream<double>(s, 0, 2 * p.size() + 3, 400, psq_len(s)); s.note("probabilities " + showv(p) + " samples " + showv(st.v));
    accumulator_set<double, stats<tag::extended_p_square_quantile> > l(extended_p_square_probabilities = p); accumulator_set<double, stats<tag::extended_p_square_quantile_quadratic> > q(extended_p_square_probabilities = p); accumulator_set<double, stats<tag::extended_p_square_quantile(linear)> > l2(extended_p_square_probabilities = p); accumulator_set<double, stats<tag::extended_p_square_quantile(quadratic)> > q2(extended_p_square_probabilities = p);
    for(double x : st.v) { l(x); q(x); l2(x); q2(x); } bool in = false, out = false, on = false; std::vector<double> h = heights_of(l, extended_p_square), h2 = heights_of(q, extended_p_square); CHECK_EQ(showv(h), showv(h2), "same estimates at the grid in both sets");
    ask<false>(s, l, q, p, h, h2, in, out, on); ask<false>(s, l2, q2, p, h, h2, in, out, on); if(out) s.label("outside the grid"); if(on) s.label("on a grid point"); if(in) s.nontrivial();
}
PBT(weighted_interpolated, 2, "a probability inside the grid and off the grid points")
{
    bool dy; std::vector<double> p = grid(s, dy, 3); auto st = gen::stream<double>(s, 0, 2 * p.size() + 3, 400, psq_len(s)); gen::WProfile wp = gen::wprofile(s, false); std::vector<double> w = gen::weights<double>(s, st.v.size(), wp, false); s.note("probabilities " + showv(p) + " samples " + showv(st.v) + " weights " + showv(w));
    accumulator_set<double, stats<tag::weighted_extended_p_square_quantile>, double> l(extended_p_square_probabilities = p); accumulator_set<double, stats<tag::weighted_extended_p_square_quantile_quadratic>, double> q(extended_p_square_probabilities = p); accumulator_set<double, stats<tag::extended_p_square_quantile(linear)>, double> l2(extended_p_square_probabilities = p); accumulator_set<double, stats<tag::extended_p_square_quantile(quadratic)>, double> q2(extended_p_square_probabilities = p);
    for(std::size_t i = 0; i < w.size(); ++i) { double x = st.v[i]; l(x, weight = w[i]); q(x, weight = w[i]); l2(x, weight = w[i]); q2(x, weight = w[i]); } bool in = false, out = false, on = false; std::vector<double> h = heights_of(l, weighted_extended_p_square), h2 = heights_of(q, weighted_extended_p_square); CHECK_EQ(showv(h), showv(h2), "same estimates at the grid in both sets");
    ask<true>(s, l, q, p, h, h2, in, out, on); ask<true>(s, l2, q2, p, h, h2, in, out, on); if(out) s.label("outside the grid"); if(on) s.label("on a grid point"); if(in) s.nontrivial();
}
PBT(extended_accuracy, 0.2, "500 or more samples")
{
    std::vector<double> p; for(int i = 1; i < 20; ++i) if(s.flip()) p.push_back(i / 20.0); while(p.size() < 3) p.push_back(p.empty() ? 0.25 : (p.back() + 1) / 2); psq::Dist D = psq::dist(s); std::size_t n = 500 + s.draw(1500); std::uint64_t st = s.draw(1ULL << 40); bool wt = s.flip(); s.note("probabilities " + showv(p) + " n " + show(n));
    accumulator_set<double, stats<tag::extended_p_square> > a(extended_p_square_probabilities = p); accumulator_set<double, stats<tag::weighted_extended_p_square>, double> b(extended_p_square_probabilities = p);
    for(std::size_t i = 0; i < n; ++i) { double x = D.q(psq::u01(st)); a(x); b(x, weight = wt ? 0.5 + psq::u01(st) : 1.0); }
    double e = 0.05 + 6 * 0.5 / std::sqrt((double)n); std::vector<double> ha = heights_of(a, extended_p_square), hb = heights_of(b, weighted_extended_p_square);
    for(std::size_t j = 0; j < p.size(); ++j) for(int k = 0; k < 2; ++k) { double v = k ? hb[j] : ha[j], lo = D.q(std::max(0.0, p[j] - e)), hi = D.q(std::min(0.999999, p[j] + e)); CHECK_MSG(v >= lo && v <= hi, std::string(k ? "weighted " : "") + "estimate for p=" + show(p[j]) + ": " + show(v) + " outside " + show(lo) + ".." + show(hi)); } s.nontrivial();
}
