#include "P12_desc.hpp"
// streams longer than any 16-bit counter
PBT(long_density, 0.002, "more than 65536 samples")
{
    gen::Long l = gen::long_stream(s); std::size_t nb = bins(s), cs = s.chance(1, 3) ? 66000 : s.flip() ? csize(s) : 5000 + s.draw(20000); s.note(l.note + " bins " + show(nb) + " cache " + show(cs)); std::vector<int> one(l.v.size(), 1); accumulator_set<double, stats<tag::density, tag::median(with_density)> > a(density_cache_size = cs, density_num_bins = nb); accumulator_set<double, stats<tag::weighted_density>, double> b(density_cache_size = cs, density_num_bins = nb);
    for(std::size_t i = 0; i < l.v.size(); ++i) { a(l.v[i]); b(l.v[i], weight = l.w[i]); } std::string at = " at the end"; Hist h = hist_of(density(a)); check_hist(h, l.v, one, l.v.size(), cs, nb, at); check_median(median(a), h, 1e-15L, at); check_hist(hist_of(weighted_density(b)), l.v, l.w, l.v.size(), cs, nb, at + ", weighted"); s.nontrivial();
}
