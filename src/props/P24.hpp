// Sets have nothing in common: every thread works on sets of its own, at the same time, under the thread sanitizer.
#include "../kits.hpp"
#include <atomic>
#include <memory>
#include <thread>
using namespace kits; using namespace pbt;
struct Plan { Par p; std::uint64_t seed; std::size_t n, ask, copy; int kind; bool heir; double q; };
struct Maker
{
    std::uint64_t st; int kind; std::size_t i; Maker(Plan const &l) : st(l.seed), kind(l.kind), i(0) {}
    double u() { return (double)(splitmix(st) >> 11) / 9007199254740992.0; }
    In next() { In r; double x = u(); ++i; switch(kind) { case 0: r.x = 0.01 * i + x; break; case 1: r.x = -0.01 * i - x; break; default: r.x = 2 * x - 1; } r.w = 0.25 * (1 + (splitmix(st) >> 60)); r.c = std::floor(64 * u()) - 32; return r; }
};
// one thread's work: from a new set, or from a copy of the ancestor (which nobody changes meanwhile)
template<class K> void work(Plan const &l, typename K::set const *ancestor, std::size_t before, Out &out)
{
    typename K::set a(l.heir ? typename K::set(*ancestor) : K::make(l.p)); Maker m(l); std::size_t const np = K::list().size(), ready = std::max<std::size_t>(1, K::ready(l.p)), had = l.heir ? before : 0;
    for(std::size_t i = 1; i <= l.n; ++i)
    {
        K::push(a, m.next()); if(i + had >= ready && l.ask && i % l.ask == 0) K::list()[(i / l.ask) % np].second(a, l.q, out);
        if(l.copy && i % l.copy == 0) { typename K::set b(a); K::push(b, m.next()); a = b; }
    }
    if(had + l.n >= ready) for(std::size_t j = 0; j < np; ++j) K::list()[j].second(a, l.q, out);
}
template<class K> void apart(Src &s)
{
    Par p = params(s); std::size_t const nt = 2 + s.draw(2); std::vector<Plan> plan; bool samepar = s.flip(), family = s.flip(), heirs = false; K::list(); std::string log = showp(p); std::size_t least = 1u << 30;
    Plan first; first.p = p; first.seed = s.draw(1u << 30); first.kind = 2; std::size_t const before = s.draw(60);
    for(std::size_t t = 0; t < nt; ++t) { Plan l; l.heir = family && s.flip(); heirs |= l.heir; l.p = samepar || l.heir ? p : params(s); l.seed = s.draw(1u << 30); l.kind = (int)s.draw(3); l.n = 1 + s.draw(120); l.ask = s.flip() ? 1 + s.draw(10) : 0; l.copy = s.flip() ? 0 : 1 + s.draw(20); l.q = qprob(s); least = std::min(least, l.n); plan.push_back(l); log += "; thread " + show(t) + (l.heir ? " from a copy" : "") + " seed " + show(l.seed) + " kind " + show(l.kind) + " samples " + show(l.n) + " question every " + show(l.ask) + " copy every " + show(l.copy); }
    s.note(log);
    std::unique_ptr<typename K::set> own; if(heirs) { own.reset(new typename K::set(K::make(p))); Maker m(first); for(std::size_t i = 0; i < before; ++i) K::push(*own, m.next()); } // otherwise the threads are the first to do anything at all
    typename K::set const *ancestor = own.get();
    std::vector<Out> got(nt), want(nt); { std::atomic<std::size_t> here(0); std::vector<std::thread> th; for(std::size_t t = 0; t < nt; ++t) th.emplace_back([&, t] { here.fetch_add(1, std::memory_order_relaxed); for(int spin = 0; spin < 2000 && here.load(std::memory_order_relaxed) < nt; ++spin) std::this_thread::yield(); work<K>(plan[t], ancestor, before, got[t]); }); for(auto &x : th) x.join(); }
    for(std::size_t t = 0; t < nt; ++t) { work<K>(plan[t], ancestor, before, want[t]); CHECK_MSG(identical(got[t], want[t]), std::string(K::name()) + ": thread " + show(t) + " of " + show(nt) + " got other results than the same work done alone"); }
    if(least >= 10) s.nontrivial();
}
#define APART(K) PBT(apart_##K, 1, "two or more threads, each with ten or more samples") { apart<kits::K>(s); }
