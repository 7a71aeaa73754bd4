#include "../kits.hpp"
#include <memory>
using namespace kits; using namespace pbt;
// a population of sets and, for each of them, the inputs it must have seen
template<class K> void copies(Src &s)
{
    typedef typename K::set set; struct Live { std::unique_ptr<set> a; Par p; std::vector<In> seen; };
    Feed f = feed(s, needs_distinct<K>::value); std::vector<Live> pop; { Live l; l.p = params(s); l.a.reset(new set(K::make(l.p))); pop.push_back(std::move(l)); } unsigned mean = 5 + (unsigned)s.draw(60); std::size_t ops = 0, ncopy = 0, nassign = 0, ndiv = 0, nmove = 0; std::string log; double const q = qprob(s);
    while(ops < 400 && s.more(mean))
    {
        ++ops; std::size_t i = s.draw(pop.size());
        switch(s.draw(16))
        {
        case 0: case 1: case 2: case 3: case 4: case 5: case 6: { unsigned k = 1 + (unsigned)s.draw(4); if(s.draw(8) == 7) k += (unsigned)s.draw(2 * std::max(std::max(pop[i].p.cache, pop[i].p.win), K::ready(pop[i].p)) + 1); for(unsigned j = 0; j < k; ++j) { In in = f.next(s); K::push(*pop[i].a, in); pop[i].seen.push_back(in); } if(s.noting()) log += " push(" + show(i) + ")x" + show(k); break; }
        case 7: case 8: if(pop.size() < 5) { Live l; l.a.reset(new set(*pop[i].a)); l.p = pop[i].p; l.seen = pop[i].seen; pop.push_back(std::move(l)); ++ncopy; log += " copy(" + show(i) + ")"; } break;
        case 9: { std::size_t j = s.draw(pop.size()); *pop[j].a = *pop[i].a; pop[j].p = pop[i].p; pop[j].seen = std::vector<In>(pop[i].seen); ++nassign; log += " assign(" + show(i) + "->" + show(j) + ")"; break; }
        case 10: if(pop.size() > 1) { pop.erase(pop.begin() + i); log += " destroy(" + show(i) + ")"; } else { Live l; l.p = params(s); l.a.reset(new set(K::make(l.p))); pop.push_back(std::move(l)); log += " new"; } break;
        // moved: the target is what the source was; the source can be destroyed, or assigned to
        case 12: { std::unique_ptr<set> m(new set(std::move(*pop[i].a))); if(s.flip()) { *pop[i].a = *m; if(s.flip()) std::swap(pop[i].a, m); } else pop[i].a = std::move(m); ++nmove; log += " move(" + show(i) + ")"; break; }
        case 13: { std::size_t j = s.draw(pop.size()); if(i == j) break; *pop[j].a = std::move(*pop[i].a); pop[j].p = pop[i].p; pop[j].seen = pop[i].seen; ++nmove; log += " move(" + show(i) + "->" + show(j) + ")"; if(s.flip()) { *pop[i].a = *pop[j].a; log += " and assigned back"; } else { pop.erase(pop.begin() + i); log += " and destroyed"; } break; }
        case 14: { std::size_t j = s.draw(pop.size()); std::swap(*pop[i].a, *pop[j].a); if(i != j) { std::swap(pop[i].p, pop[j].p); std::swap(pop[i].seen, pop[j].seen); } ++nmove; log += " swap(" + show(i) + "," + show(j) + ")"; break; }
        // a twin with the same parameters and as many other inputs, both asked the questions that are asked again in the end, then one is assigned to the other
        case 15: { std::unique_ptr<set> t(new set(K::make(pop[i].p))); std::vector<In> in; while(in.size() < pop[i].seen.size()) { in.push_back(f.next(s)); K::push(*t, in.back()); } if(!in.empty() && in.size() >= K::ready(pop[i].p)) for(std::size_t u = 0; u < K::list().size(); ++u) { (void)ask<K>(*t, u, q); (void)ask<K>(*pop[i].a, u, q); }
            if(s.flip()) { *pop[i].a = *t; pop[i].seen = in; log += " assign(twin->" + show(i) + ")"; } else { *t = *pop[i].a; std::swap(t, pop[i].a); log += " assign(" + show(i) + "->twin)"; } ++nassign; break; }
        case 11: if(!pop[i].seen.empty() && pop[i].seen.size() >= K::ready(pop[i].p)) { (void)ask<K>(*pop[i].a, s.draw(K::list().size()), s.flip() ? q : qprob(s)); log += " ask(" + show(i) + ")"; } break;
        }
    }
    std::string note;
    for(std::size_t i = 0; i < pop.size(); ++i) if(s.noting()) note += " set " + show(i) + ": " + showp(pop[i].p) + " inputs " + showi(pop[i].seen); s.note(log + note);
    for(std::size_t i = 0; i < pop.size(); ++i)
    {
        if(pop[i].seen.empty() || pop[i].seen.size() < K::ready(pop[i].p)) continue; set fresh(K::make(pop[i].p)); for(In const &in : pop[i].seen) K::push(fresh, in); all_same<K>(*pop[i].a, fresh, q, "set " + show(i) + " against a fresh set given the same inputs"); ++ndiv;
    }
    if(ncopy) s.label("copied"); if(nassign) s.label("assigned"); if(nmove) s.label("moved or swapped"); if(ndiv > 1 && ncopy + nassign + nmove) s.nontrivial();
}
#define COPY(K) PBT(copies_##K, 1, "two or more live sets compared, at least one copy, assignment, move or swap") { copies<kits::K>(s); }
