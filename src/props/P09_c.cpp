// accuracy on independent samples of a smooth distribution; float samples; affine maps
#include "P09.hpp"
PBT(accuracy, 0.3, "500 or more samples")
{
    bool dy; double p; do p = qprob(s, dy); while(p < 0.05 || p > 0.95); psq::Dist D = psq::dist(s); std::size_t n = 500 + s.draw(1500); std::uint64_t st = s.draw(1ULL << 40); bool wt = s.flip();
    s.note("p " + show(p) + " n " + show(n) + " distribution " + show(D.kind) + " weighted " + show(wt));
    accumulator_set<double, stats<tag::p_square_quantile, tag::median> > a(quantile_probability = p); accumulator_set<double, stats<tag::weighted_p_square_quantile, tag::weighted_median>, double> b(quantile_probability = p); accumulator_set<float, stats<tag::p_square_quantile> > f(quantile_probability = p);
    for(std::size_t i = 0; i < n; ++i) { double x = D.q(psq::u01(st)); a(x); f((float)x); b(x, weight = wt ? 0.5 + psq::u01(st) : 1.0); }
    double e = 0.05 + 6 * 0.5 / std::sqrt((double)n); auto in = [&](double v, double q, char const *w) { double l = std::max(0.0, q - e), h = std::min(0.999999, q + e); double lo = D.q(l), hi = D.q(h); CHECK_MSG(v >= lo && v <= hi, std::string(w) + " of p=" + show(q) + ": " + show(v) + " outside " + show(lo) + ".." + show(hi)); };
    in(p_square_quantile(a), p, "P2 estimate"); in(median(a), 0.5, "P2 median"); in(weighted_p_square_quantile(b), p, "weighted P2 estimate"); in(weighted_median(b), 0.5, "weighted P2 median"); in(p_square_quantile(f), p, "P2 estimate (float)"); s.nontrivial();
}
PBT(affine, 1, "slope not one and more than eight samples")
{
    // scaling by a power of two is exact: the estimate of the scaled stream is the scaled estimate, bit for bit
    bool dy; double p = qprob(s, dy); auto st = gen::stream<double>(s, 0, 5, 600, psq_len(s)); int k = (int)s.signedint(30); double c = std::ldexp(1.0, k); s.note("p " + show(p) + " factor " + show(c) + " samples " + showv(st.v));
    gen::WProfile wp = gen::wprofile(s, false); std::vector<double> w = gen::weights<double>(s, st.v.size(), wp, false);
    accumulator_set<double, stats<tag::p_square_quantile> > a(quantile_probability = p), b(quantile_probability = p); accumulator_set<double, stats<tag::weighted_p_square_quantile>, double> wa(quantile_probability = p), wb(quantile_probability = p);
    for(std::size_t i = 0; i < st.v.size(); ++i) { double x = st.v[i]; a(x); b(c * x); wa(x, weight = w[i]); wb(c * x, weight = w[i]); if(i >= 4) { CHECK_SAME(p_square_quantile(b), c * p_square_quantile(a), "scaled stream, sample " + show(i)); CHECK_SAME(weighted_p_square_quantile(wb), c * weighted_p_square_quantile(wa), "scaled weighted stream, sample " + show(i)); } }
    if(k && st.v.size() > 8) s.nontrivial();
}
