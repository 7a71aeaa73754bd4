// The memory of a set is fixed by its configuration: every allocation of the process is counted while a set takes in a long stream.
#define KITS_ARCHIVE
#include "../kits.hpp"
#include <sstream>
using namespace kits; using namespace pbt;
extern thread_local long mem_live, mem_peak; // bytes allocated with operator new and not yet given back; the largest value since it was reset (P23_new.cpp)
struct Plan { Par p; std::uint64_t seed; std::size_t warm, n, ask, copy, arch; int kind; bool assign; double q; };
// samples of a plan: cheap, and independent of the recorded choices (whose storage grows)
struct Maker
{
    std::uint64_t st; int kind; std::size_t i; Maker(Plan const &l) : st(l.seed), kind(l.kind), i(0) {}
    double u() { return (double)(splitmix(st) >> 11) / 9007199254740992.0; }
    In next() { In r; double x = u(); ++i; switch(kind) { case 0: r.x = std::floor(8 * x) - 4; break; case 1: r.x = 0.01 * i + x; break; case 2: r.x = -0.01 * i - x; break; case 3: r.x = 2 * x - 1; break; default: r.x = 3; } r.w = 0.25 * (1 + (splitmix(st) >> 60)); r.c = std::floor(64 * u()) - 32; return r; }
};
// one life of a set; returns false when the memory grew with the stream
template<class K> void life(Plan const &l, bool judge, std::string &bad)
{
    long const base = mem_live; typename K::set a(K::make(l.p)); Maker m(l); std::size_t const np = K::list().size(), ready = std::max<std::size_t>(1, K::ready(l.p)); long fixed = 0;
    for(std::size_t i = 1; i <= l.warm + l.n; ++i)
    {
        K::push(a, m.next());
        if(i >= ready && l.ask && i % l.ask == 0) { Out o; K::list()[(i / l.ask) % np].second(a, l.q, o); }
        if(l.copy && i % l.copy == 0) { typename K::set b(a); if(l.assign) { K::push(b, m.next()); a = b; } }
        if(l.arch && i % l.arch == 0) { std::stringstream o; { boost::archive::binary_oarchive oa(o); typename K::set const &c = a; oa << c; } typename K::set b(K::make(l.p)); { boost::archive::binary_iarchive ia(o); ia >> b; } if(l.assign) a = b; }
        if(i == l.warm) { fixed = mem_live - base; }
        if(judge && i > l.warm && bad.empty() && mem_live - base > 2 * fixed + 4096) bad = std::string(K::name()) + ": the set held " + show(fixed) + " bytes after " + show(l.warm) + " samples and holds " + show(mem_live - base) + " bytes after " + show(i);
    }
}
template<class K> void bounded(Src &s)
{
    Plan l; l.p = params(s); l.seed = s.draw(1ULL << 32); l.kind = (int)s.draw(5); if(needs_distinct<K>::value && (l.kind == 0 || l.kind == 4)) l.kind = 3; l.n = s.draw(16) == 15 ? s.draw(12000) : s.draw(4000); l.ask = s.flip() ? 0 : 1 + s.draw(60); l.copy = s.flip() ? 0 : 20 + s.draw(500); l.arch = s.draw(3) ? 0 : 20 + s.draw(500); l.assign = s.flip(); l.q = qprob(s);
    l.warm = 2 * (l.p.cache + l.p.win + l.p.bins + l.p.cells + 2 * l.p.probs.size() + 16);
    s.note(showp(l.p) + " stream kind " + show(l.kind) + " seed " + show(l.seed) + " samples " + show(l.warm) + "+" + show(l.n) + " question every " + show(l.ask) + " copy every " + show(l.copy) + " archive every " + show(l.arch) + (l.assign ? " assigned back" : "")); s.label(l.ask ? "questions" : "no questions"); if(l.arch) s.label("archives"); K::list();
    std::string bad; life<K>(l, true, bad); CHECK_MSG(bad.empty(), bad);
    // after the first life (one-time initialisations) a further life leaves nothing behind
    Plan t = l; t.n = std::min<std::size_t>(l.n, 300); std::string none; life<K>(t, false, none); long before = mem_live; life<K>(t, false, none); life<K>(t, false, none); long after = mem_live; CHECK_EQ(after - before, 0L, std::string(K::name()) + ": bytes left behind by sets that are gone");
    if(l.n >= 1000) s.nontrivial();
}
#define BOUNDED(K) PBT(bounded_##K, 1, "a thousand or more samples after the configured storage is full") { bounded<kits::K>(s); }
