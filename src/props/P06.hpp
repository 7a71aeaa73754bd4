#include "../gen.hpp"
#include <set>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators; using namespace pbt; using gen::LD;

template<class LR> struct dir;
template<> struct dir<right> { template<class T> static bool before(T a, T b) { return a > b; } static char const *name() { return "right"; } };
template<> struct dir<left> { template<class T> static bool before(T a, T b) { return a < b; } static char const *name() { return "left"; } };
inline std::size_t cache_sz(Src &s) { switch(s.draw(48) == 47 ? 3 : s.draw(3)) { case 3: return 100 + s.draw(500); case 0: return 1 + s.draw(3); case 1: return 1 + s.draw(12); default: return 1 + s.draw(100); } }

// the cached tail is exactly the k most extreme samples seen so far, most extreme first
template<class LR, class T, class R> void check_tail(R const &r, std::vector<T> seen, std::size_t cache)
{
    std::stable_sort(seen.begin(), seen.end(), [](T a, T b) { return dir<LR>::before(a, b); });
    std::size_t k = std::min(cache, seen.size()); CHECK_EQ((std::size_t)boost::size(r), k, "number of cached samples");
    std::size_t i = 0; for(auto const &x : r) { CHECK_EQ((T)x, seen[i], "cached sample at rank " + show(i)); ++i; }
}
// companions (variates, weights) stay with the sample they arrived with
template<class T, class R, class V, class C> void check_pairs(R const &r, V const &v, std::vector<T> const &seen, std::vector<C> const &comp, char const *what)
{
    CHECK_EQ((std::size_t)boost::size(v), (std::size_t)boost::size(r), std::string("number of cached ") + what);
    std::vector<std::pair<T, C> > have, avail; auto j = v.begin();
    for(auto i = r.begin(); i != r.end(); ++i, ++j) have.push_back(std::make_pair((T)*i, (C)*j));
    for(std::size_t i = 0; i < seen.size(); ++i) avail.push_back(std::make_pair(seen[i], comp[i]));
    std::sort(have.begin(), have.end()); std::sort(avail.begin(), avail.end());
    if(!std::includes(avail.begin(), avail.end(), have.begin(), have.end())) fail(std::string("a cached ") + what + " is not the one that came with its sample");
}
