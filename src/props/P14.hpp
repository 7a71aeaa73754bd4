#include "../kits.hpp"
using namespace kits; using namespace pbt;
// the same stream into two sets; one of them is asked questions all the time
template<class K> void purity(Src &s)
{
    Par p = params(s); Feed f = feed(s, needs_distinct<K>::value); unsigned mean = 3 + (unsigned)s.draw(40); typename K::set a(K::make(p)), b(K::make(p)); std::size_t const np = K::list().size(); std::vector<In> in; std::size_t asked = 0, n = 0, ready = K::ready(p); std::string log;
    while(n < 300 && s.more(mean + (unsigned)ready))
    {
        In i = f.next(s); in.push_back(i); K::push(a, i); K::push(b, i); ++n; if(n < ready) continue;
        std::size_t k = s.draw(4); for(std::size_t j = 0; j < k; ++j) { std::size_t w = s.draw(np); double q = qprob(s); Out x = ask<K>(a, w, q); ++asked; if(s.flip()) { Out y = ask<K>(a, w, q); if(!identical(x, y)) { s.note(showp(p) + " inputs " + showi(in)); fail(std::string(K::name()) + ": asking " + K::list()[w].first + " twice gives " + showv(x) + " then " + showv(y)); } } }
    }
    s.note(showp(p) + " inputs " + showi(in) + " questions " + show(asked)); if(n < ready || n == 0) return; double q = qprob(s); all_same<K>(a, b, q, "set questioned " + show(asked) + " times against set never questioned"); all_same<K>(a, b, qprob(s), "second round");
    if(asked > 2 && n > 2) s.nontrivial();
}
#define PURE(K) PBT(purity_##K, 1, "three or more questions while samples arrive") { purity<kits::K>(s); }
