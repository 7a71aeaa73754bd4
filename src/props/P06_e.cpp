// variates that are not numbers, unweighted sets, the second variate name, reading only the variate
#include "P06.hpp"
template<class LR> void stringvar(Src &s)
{
    std::size_t cache = cache_sz(s); auto st = gen::stream<double>(s, 0, 0, 300); accumulator_set<double, stats<tag::tail_variate<std::string, tag::covariate2, LR> > > a(tag::tail<LR>::cache_size = cache), b(a);
    std::vector<std::string> names; unsigned every = 1 + (unsigned)s.draw(10) + (unsigned)st.v.size() / 8; s.note("cache " + show(cache) + " samples " + showv(st.v));
    std::vector<double> seen;
    for(std::size_t i = 0; i < st.v.size(); ++i)
    {
        names.push_back("arrival-number-" + show(i)); seen.push_back(st.v[i]); a(st.v[i], covariate2 = names.back()); b(st.v[i], covariate2 = names.back());
        if(i % every == 0) { std::vector<std::string> first(tail_variate(a).begin(), tail_variate(a).end()); check_tail<LR, double>(tail(a), seen, cache); check_pairs(tail(a), first, seen, names, "variate"); }
    }
    std::vector<std::string> vb(tail_variate(b).begin(), tail_variate(b).end()); check_tail<LR, double>(tail(b), seen, cache); check_pairs(tail(b), vb, seen, names, "variate");
    if(seen.size() > cache) s.nontrivial();
}
PBT(named_right, 1, "more samples than the cache holds") { stringvar<right>(s); }
PBT(named_left, 1, "more samples than the cache holds") { stringvar<left>(s); }
