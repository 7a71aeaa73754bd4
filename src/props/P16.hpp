#define KITS_ARCHIVE
#include "../kits.hpp"
#include <sstream>
#include <memory>
using namespace kits; using namespace pbt;
// op: through the archive's operators, otherwise by calling serialize
template<class S> std::string save(S &a, bool text, bool op = false) { std::ostringstream o; S const &c = a; if(text) { boost::archive::text_oarchive oa(o); if(op) oa << c; else a.serialize(oa, 0); } else { boost::archive::binary_oarchive oa(o); if(op) oa << c; else a.serialize(oa, 0); } return o.str(); }
template<class S> void load(S &a, std::string const &b, bool text, bool op = false) { std::istringstream i(b); if(text) { boost::archive::text_iarchive ia(i); if(op) ia >> a; else a.serialize(ia, 0); } else { boost::archive::binary_iarchive ia(i); if(op) ia >> a; else a.serialize(ia, 0); } }
// a set is written to an archive at some point of its life, read into another set (new, or with a past of its own), and both go on
template<class K> void archive(Src &s)
{
    typedef typename K::set set; Par p = params(s); Feed f = feed(s, needs_distinct<K>::value); unsigned mean = 2 + (unsigned)s.draw(40); std::size_t n1 = 0, n2 = 0, n3 = 0, rt = 0; set a(K::make(p)); std::unique_ptr<set> b; std::vector<In> in; std::size_t ready = K::ready(p); bool text = s.chance(1, 4), used = s.flip(), op = s.flip(); bool empty = true;
    std::unique_ptr<set> before; unsigned const per = mean + (unsigned)std::max(ready, p.win > 20 ? p.cache : 0) / 2; while(n1 < 400 && s.more(per)) { In i = f.next(s); in.push_back(i); K::push(a, i); ++n1; if(n1 >= ready && s.chance(1, 4)) (void)ask<K>(a, s.draw(K::list().size()), qprob(s)); }
    int rounds = 1 + (int)s.draw(2); double q = qprob(s);
    for(int r = 0; r < rounds; ++r)
    {
        b.reset(new set(K::make(p))); if(used) { std::size_t k = s.draw(12); switch(s.draw(6)) { case 4: k = n1; break; case 5: k = ready + s.draw(8); break; default: break; } for(std::size_t j = 0; j < k; ++j) { K::push(*b, f.next(s)); ++n2; if(j + 1 >= ready && s.chance(1, 3)) (void)ask<K>(*b, s.draw(K::list().size()), qprob(s)); }
            // the target may have been asked the very questions that are asked again after loading
            if(k && k >= ready && s.flip()) for(std::size_t u = 0; u < K::list().size(); ++u) (void)ask<K>(*b, u, q); if(n1 && n1 >= ready && s.flip()) for(std::size_t u = 0; u < K::list().size(); ++u) (void)ask<K>(a, u, q); }
        before.reset(new set(a)); std::string bytes = save(a, text, op);
        try { load(*b, bytes, text, op); } catch(std::exception const &e) { if(text && (bytes.find("nan") != std::string::npos || bytes.find("inf") != std::string::npos)) return; fail(std::string(K::name()) + ": reading the archive back: " + e.what()); }
        ++rt; if(n1 >= ready && n1) all_same<K>(*b, a, q, "restored set against the saved one"); if(n1 >= ready && n1) all_same<K>(a, *before, q, "after saving, against a copy made before");
        std::size_t more = s.draw(20); for(std::size_t j = 0; j < more; ++j) { In i = f.next(s); in.push_back(i); K::push(a, i); K::push(*b, i); ++n1; ++n3; }
        if(s.noting()) { s.note(showp(p) + (text ? " text" : " binary") + " total inputs " + showi(in) + " of which after the archive " + show(more) + " target used before " + show(n2)); }
        if(n1 >= ready && n1) { all_same<K>(*b, a, q, "after " + show(more) + " further inputs, restored set against the saved one"); }
        if(r + 1 < rounds && s.flip()) { a = *b; }
    }
    if(used && n2) s.label("read into a set with a past"); if(text) s.label("text archive"); if(n1 - n3 > 1 && n3 > 1 && n1 >= ready) s.nontrivial();
}
#define ARCH(K) PBT(archive_##K, 1, "two or more samples before the archive and two or more after") { archive<kits::K>(s); }
