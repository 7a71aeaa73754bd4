#include "P09.hpp"
// streams longer than any 16-bit counter
PBT(long_quantile, 0.001, "more than 65536 samples, compared with the model to the end")
{
    gen::Long l = gen::long_stream(s); double p = (double)s.integer(1, 63) / 64; s.note(l.note + " p " + show(p)); accumulator_set<double, stats<tag::p_square_quantile, tag::median> > a(quantile_probability = p); accumulator_set<double, stats<tag::weighted_p_square_quantile, tag::weighted_median>, double> b(quantile_probability = p);
    psq::Model m(psq::frac_quantile(p), true), w(psq::frac_quantile(p), true), h(psq::frac_quantile(0.5L), true); std::size_t const n = l.v.size(); bool end = false;
    for(std::size_t i = 0; i < n; ++i)
    {
        double x = l.v[i]; a(x); b(x, weight = l.w[i]); m.add(x, 1); w.add(x, l.w[i]); h.add(x, 1); if(i % 16384 != 16383 && i + 1 != n) continue; std::string at = " after sample " + show(i);
        if(m.sure) { CHECK_NEAR(p_square_quantile(a), m.h[2], 1e-9L * m.hscale(), "P2 estimate" + at); end = i + 1 == n; } if(h.sure) CHECK_NEAR(median(a), h.h[2], 1e-9L * m.hscale(), "P2 median" + at); if(w.sure) CHECK_NEAR(weighted_p_square_quantile(b), w.h[2], 1e-9L * m.hscale(), "weighted P2 estimate" + at);
    }
    if(end) s.nontrivial();
}
