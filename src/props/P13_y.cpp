#include "P13.hpp"
// streams longer than any 16-bit counter
template<class LR> void long_pot(Src &s)
{
    int const sg = std::is_same<LR, left>::value ? -1 : 1; gen::Long l = gen::long_stream(s); std::vector<double> o(l.v); std::sort(o.begin(), o.end()); if(sg > 0) std::reverse(o.begin(), o.end()); std::size_t const n = o.size(); double u = o[s.flip() ? 50 + s.draw(1000) : n / 100 + s.draw(n - n / 50)]; double p = qp(s), om = sg < 0 ? p : 1 - p; s.note(l.note + " threshold " + show(u) + " p " + show(p));
    accumulator_set<double, stats<tag::pot_tail_mean<LR> > > a(pot_threshold_value = u); accumulator_set<double, stats<tag::weighted_pot_tail_mean<LR> >, double> b(pot_threshold_value = u); std::vector<Item> e, ew; LD tot = 0, we = 0;
    for(std::size_t i = 0; i < n; ++i) { a(l.v[i]); b(l.v[i], weight = l.w[i]); tot += l.w[i]; if(sg * l.v[i] > sg * u) { e.push_back(Item{sg * l.v[i], 1, Vec()}); ew.push_back(Item{sg * l.v[i], (LD)l.w[i], Vec()}); we += l.w[i]; } }
    Fit f, t; if(!e.empty() && expect(e, sg * u, 1 - (LD)e.size() / n, om, f, t)) { pot_compare(peaks_over_threshold(a), quantile(a, quantile_probability = p), tail_mean(a, quantile_probability = p), f, t, sg, ""); s.nontrivial(); }
    if(!e.empty() && expect(ew, sg * u, 1 - we / tot, om, f, t)) pot_compare(weighted_peaks_over_threshold(b), quantile(b, quantile_probability = p), tail_mean(b, quantile_probability = p), f, t, sg, " weighted");
}
PBT(long_left, 0.002, "more than 65536 samples and a fit compared") { long_pot<left>(s); }
PBT(long_right, 0.002, "more than 65536 samples and a fit compared") { long_pot<right>(s); }
