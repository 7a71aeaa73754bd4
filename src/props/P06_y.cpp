#include "P06.hpp"
// streams longer than any 16-bit counter; the companion of sample i is i
template<class LR> void long_tail(Src &s)
{
    gen::Long l = gen::long_stream(s); std::size_t cache = s.flip() ? cache_sz(s) : 500 + s.draw(1500); s.note(l.note + " cache " + show(cache)); std::vector<std::size_t> ord(l.v.size()); for(std::size_t i = 0; i < ord.size(); ++i) ord[i] = i;
    accumulator_set<double, stats<tag::tail<LR>, tag::tail_variate<int, tag::covariate1, LR>, tag::tail_weights<LR> >, double> a(tag::tail<LR>::cache_size = cache); for(std::size_t i = 0; i < ord.size(); ++i) a(l.v[i], weight = l.w[i], covariate1 = (int)i);
    auto t = tail(a); auto v = extract_result<tag::tail_variate<int, tag::covariate1, LR> >(a); auto w = tail_weights(a); check_tail<LR>(t, l.v, cache);
    auto wi = w.begin(); auto ti = t.begin(); std::set<int> seen; for(auto i = v.begin(); i != v.end(); ++i, ++wi, ++ti) { CHECK_MSG(seen.insert((int)*i).second, "a companion is listed once"); CHECK_EQ(l.v[(int)*i], (double)*ti, "the variate listed alongside a sample is its own"); CHECK_EQ(l.w[(int)*i], (double)*wi, "the weight listed alongside a sample is its own"); }
    CHECK_EQ(seen.size(), cache, "number of companions"); s.nontrivial();
}
PBT(long_left, 0.002, "more than 65536 samples") { long_tail<left>(s); }
PBT(long_right, 0.002, "more than 65536 samples") { long_tail<right>(s); }
