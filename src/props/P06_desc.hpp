#include "P06.hpp"
template<class T, class LR> void tails(Src &s, long long imax)
{
    std::size_t cache = cache_sz(s); auto st = gen::stream<T>(s, imax, 0, 600); unsigned every = 1 + (unsigned)s.draw(12) + (unsigned)st.v.size() / 12; unsigned copy_at = (unsigned)s.draw(40);
    s.note("cache " + show(cache) + " samples " + showv(st.v));
    typedef accumulator_set<T, stats<tag::tail<LR>, tag::tail_variate<int, tag::covariate1, LR>, tag::tail_weights<LR> >, double> A; typedef accumulator_set<T, stats<tag::tail<LR> > > B;
    A a(tag::tail<LR>::cache_size = cache), c(tag::tail<LR>::cache_size = cache); B b(tag::tail<LR>::cache_size = cache); std::vector<T> seen; std::vector<int> id; std::vector<double> w; std::vector<std::pair<int, double> > both; bool evict = false;
    for(std::size_t i = 0; i < st.v.size(); ++i)
    {
        T x = st.v[i]; a(x, weight = 0.5 + i, covariate1 = (int)(1000 + i)); b(x); c(x, covariate1 = (int)(1000 + i), weight = 0.5 + i);
        if(i == copy_at) { A d(a); a = d; s.label("continued on a copy"); }
        seen.push_back(x); id.push_back((int)(1000 + i)); w.push_back(0.5 + i); both.push_back(std::make_pair(1000 + (int)i, 0.5 + i));
        if(seen.size() > cache) evict = true;
        if(i % every && i + 1 != st.v.size()) continue;
        if(i % 2) { check_pairs(tail(a), tail_variate(a), seen, id, "variate"); } // companions first: their extraction sorts the tail as well
        check_tail<LR, T>(tail(a), seen, cache); check_tail<LR, T>(tail(b), seen, cache);
        check_pairs(tail(a), tail_variate(a), seen, id, "variate"); check_pairs(tail(a), tail_weights(a), seen, w, "weight");
        // variate and weight belong to the same arrival
        auto wi = tail_weights(a).begin(); for(int v : tail_variate(a)) { CHECK_EQ((double)*wi, v - 1000 + 0.5, "weight of the arrival whose variate is cached at the same rank"); ++wi; }
    }
    // c was never looked at before the end
    check_tail<LR, T>(tail(c), seen, cache); check_pairs(tail(c), tail_variate(c), seen, id, "variate"); check_pairs(tail(c), tail_weights(c), seen, w, "weight");
    if(evict) s.label("more samples than the cache holds"); if(seen.size() == cache) s.label("cache exactly full");
    std::set<T> u(seen.begin(), seen.end()); if(u.size() < seen.size()) s.label("ties");
    if(evict && u.size() > 1) s.nontrivial();
}
