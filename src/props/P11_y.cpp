#include "P11_desc.hpp"
// streams longer than any 16-bit counter
PBT(long_cumulative, 0.001, "more than 65536 samples, compared with the model to the end")
{
    gen::Long l = gen::long_stream(s); std::size_t b = 1u << (1 + s.draw(5)); s.note(l.note + " cells " + show(b)); accumulator_set<double, stats<tag::p_square_cumulative_distribution> > a(p_square_cumulative_distribution_num_cells = b); accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution>, double> c(p_square_cumulative_distribution_num_cells = b);
    psq::Model m(psq::frac_cells(b), true), w(psq::frac_cells(b), true); std::size_t const n = l.v.size(); bool end = false; LD lo = INFINITY, hi = -INFINITY;
    for(std::size_t i = 0; i < n; ++i)
    {
        double x = l.v[i]; a(x); c(x, weight = l.w[i]); m.add(x, 1); w.add(x, l.w[i]); lo = std::min(lo, (LD)x); hi = std::max(hi, (LD)x); if(i % 16384 != 16383 && i + 1 != n) continue; std::string at = " after sample " + show(i); Cdf d = cdf_of(p_square_cumulative_distribution(a)), e = cdf_of(weighted_p_square_cumulative_distribution(c)); shape(d, b, lo, hi, m.mx, at); shape(e, b, lo, hi, m.mx, at);
        if(m.sure) { for(std::size_t j = 0; j <= b; ++j) { CHECK_NEAR(d[j].first, m.h[j], 1e-9L * m.hscale(), "abscissa " + show(j) + at); CHECK_NEAR(d[j].second, m.pos[j] / m.W, 1e-9L, "ordinate " + show(j) + at); } end = i + 1 == n; }
        if(w.sure) for(std::size_t j = 0; j <= b; ++j) { CHECK_NEAR(e[j].first, w.h[j], 1e-9L * m.hscale(), "weighted abscissa " + show(j) + at); CHECK_NEAR(e[j].second, w.pos[j] / w.W, 1e-9L, "weighted ordinate " + show(j) + at); }
    }
    if(end) s.nontrivial();
}
