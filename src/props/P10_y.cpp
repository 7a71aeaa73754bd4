#include "P10.hpp"
// streams longer than any 16-bit counter
PBT(long_extended, 0.001, "more than 65536 samples, compared with the model to the end")
{
    gen::Long l = gen::long_stream(s); std::vector<double> p; for(int i = 1; i < 32; ++i) if(s.draw(6) == 0) p.push_back(i / 32.0); if(p.empty()) p.push_back(0.25); s.note(l.note + " probabilities " + showv(p)); accumulator_set<double, stats<tag::extended_p_square> > a(extended_p_square_probabilities = p); accumulator_set<double, stats<tag::weighted_extended_p_square>, double> b(extended_p_square_probabilities = p);
    psq::Model m(psq::frac_extended(p), true), w(psq::frac_extended(p), true); std::size_t const n = l.v.size(); bool end = false;
    for(std::size_t i = 0; i < n; ++i)
    {
        double x = l.v[i]; a(x); b(x, weight = l.w[i]); m.add(x, 1); w.add(x, l.w[i]); if(i % 16384 != 16383 && i + 1 != n) continue; std::string at = " after sample " + show(i);
        if(m.sure) { std::vector<double> h = heights_of(a, extended_p_square); for(std::size_t j = 0; j < p.size(); ++j) CHECK_NEAR(h[j], m.h[2 * j + 2], 1e-9L * m.hscale(), "estimate " + show(j) + at); end = i + 1 == n; }
        if(w.sure) { std::vector<double> h = heights_of(b, weighted_extended_p_square); for(std::size_t j = 0; j < p.size(); ++j) CHECK_NEAR(h[j], w.h[2 * j + 2], 1e-9L * m.hscale(), "weighted estimate " + show(j) + at); }
    }
    if(end) s.nontrivial();
}
