#include "P07.hpp"
#include <set>
// distinct samples with weights, sorted from the tail inwards: the textbook definitions
struct Item { double x; LD w; Vec y; };
template<class LR> void sort_tail(std::vector<Item> &v) { std::stable_sort(v.begin(), v.end(), [](Item const &a, Item const &b) { return dir<LR>::before(a.x, b.x); }); }
// smallest n with w_1+...+w_n >= level * total; false when a partial sum is within rounding distance of the threshold
inline bool wrank(std::vector<Item> const &o, LD level, bool exact, std::size_t &n, LD margin = 1e-9L)
{
    LD tot = 0; for(auto const &i : o) tot += i.w; LD thr = tot * level, sum = 0; n = 0; bool ok = true;
    while(n < o.size()) { if(!exact && fabsl(sum - thr) < margin * tot) ok = false; if(!(sum < thr)) break; sum += o[n].w; ++n; }
    if(!exact && fabsl(sum - thr) < margin * tot) ok = false;
    return ok;
}
