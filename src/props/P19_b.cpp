// The same with the other set held by reference: samples it gets later are seen; copies of the set refer to it too.
#include "P19.hpp"
template<class C> void history(Src &s)
{
    typedef accumulator_set<double, stats<tag::sum> > S1; struct Live { std::unique_ptr<C> a; int src; std::vector<double> ys; };
    S1 src[2]; std::vector<double> xs[2]; std::vector<Live> pop; int k = (int)s.draw(3); std::string log; std::size_t ops = 0, got = 0;
    for(int j = 0; j < 2; ++j) { Live l; l.src = j; l.a.reset(new C(my::src = src[j])); pop.push_back(std::move(l)); }
    auto check = [&] { for(std::size_t i = 0; i < pop.size(); ++i) { Live &l = pop[i]; std::vector<double> &x = xs[l.src];
            near("sum", sum(*l.a), tot(x), mag(x), x.size()); if(count(*l.a) != l.ys.size()) fail("count of set " + show(i) + " is " + show(count(*l.a))); if(&reference_tag<my::tag::src>(*l.a) != &src[l.src]) fail("set " + show(i) + " refers to the wrong set");
            if(!l.ys.empty()) { near("mean", mean(*l.a), tot(x) / l.ys.size(), mag(x), x.size()); if(!x.empty()) ++got; } } };
    while(ops < 200 && s.more(30))
    {
        ++ops;
        switch(s.draw(6))
        {
        case 0: case 1: { int j = (int)s.draw(2); double x = val(s, k); src[j](x); xs[j].push_back(x); log += " source" + show(j) + "(" + show(x) + ")"; break; }
        case 2: case 3: { std::size_t j = s.draw(pop.size()); double x = val(s, k); (*pop[j].a)(x); pop[j].ys.push_back(x); log += " set" + show(j) + "(" + show(x) + ")"; break; }
        case 4: if(pop.size() < 4) { std::size_t j = s.draw(pop.size()); Live l; l.a.reset(new C(*pop[j].a)); l.src = pop[j].src; l.ys = pop[j].ys; pop.push_back(std::move(l)); log += " copy(" + show(j) + ")"; } break;
        default: { std::size_t i = s.draw(pop.size()), j = s.draw(pop.size()); *pop[i].a = *pop[j].a; pop[i].src = pop[j].src; pop[i].ys = std::vector<double>(pop[j].ys); log += " assign(" + show(j) + "->" + show(i) + ")"; }
        }
        try { check(); } catch(Failure &) { s.note(log); throw; }
    }
    s.note(log); if(got) s.nontrivial();
}
typedef accumulator_set<double, stats<tag::sum> > SumSet;
PBT(held_reference, 2, "a mean was formed from both sets") { history<accumulator_set<double, stats<tag::mean, tag::external<tag::sum, my::tag::src>, tag::reference<SumSet, my::tag::src> > > >(s); }
PBT(held_external, 2, "a mean was formed from both sets") { history<accumulator_set<double, stats<tag::mean, tag::external<tag::sum, my::tag::src, SumSet> > > >(s); }
PBT(held_reordered, 1, "a mean was formed from both sets") { history<accumulator_set<double, stats<tag::reference<SumSet, my::tag::src>, tag::external<tag::sum, my::tag::src>, tag::mean> > >(s); }
