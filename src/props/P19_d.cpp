// Values and references held in a set.
#include "P19.hpp"
PBT(values_and_references, 2, "the referenced objects changed and the set was copied")
{
    typedef accumulator_set<double, stats<tag::reference<int, my::tag::ref_a>, tag::value<int, my::tag::val_a>, tag::mean, tag::reference<double, my::tag::ref_b>, tag::value<double, my::tag::val_b> > > A;
    struct Live { std::unique_ptr<A> a; int cell; int va; double vb; std::vector<double> ys; };
    int ia[2] = { (int)s.signedint(5), (int)s.signedint(5) }; double db[2] = { (double)s.signedint(9) / 2, (double)s.signedint(9) / 2 }; std::vector<Live> pop; std::size_t ops = 0, changed = 0, copied = 0; std::string log;
    for(int j = 0; j < 2; ++j) { Live l; l.cell = j; l.va = (int)s.signedint(9); l.vb = (double)s.signedint(9) / 4; if(s.flip()) l.a.reset(new A(my::ref_a = ia[j], my::ref_b = db[j], my::val_a = l.va, my::val_b = l.vb)); else l.a.reset(new A(my::val_b = l.vb, my::ref_b = db[j], my::val_a = l.va, my::ref_a = ia[j])); pop.push_back(std::move(l)); }
    while(ops < 120 && s.more(20))
    {
        ++ops;
        switch(s.draw(6))
        {
        case 0: { int j = (int)s.draw(2); ia[j] = (int)s.signedint(100); log += " a" + show(j) + "=" + show(ia[j]); ++changed; break; }
        case 1: { std::size_t j = s.draw(pop.size()); double v = (double)s.signedint(100) / 4; reference_tag<my::tag::ref_b>(*pop[j].a) = v; db[pop[j].cell] = v; log += " through set" + show(j) + " b=" + show(v); ++changed; if(db[pop[j].cell] != v) fail("unreachable"); break; }
        case 2: case 3: { std::size_t j = s.draw(pop.size()); double x = (double)s.signedint(20); (*pop[j].a)(x); pop[j].ys.push_back(x); log += " set" + show(j) + "(" + show(x) + ")"; break; }
        case 4: if(pop.size() < 4) { std::size_t j = s.draw(pop.size()); Live l; l.a.reset(new A(*pop[j].a)); l.cell = pop[j].cell; l.va = pop[j].va; l.vb = pop[j].vb; l.ys = pop[j].ys; pop.push_back(std::move(l)); ++copied; log += " copy(" + show(j) + ")"; } break;
        default: { std::size_t i = s.draw(pop.size()), j = s.draw(pop.size()); *pop[i].a = *pop[j].a; pop[i].cell = pop[j].cell; pop[i].va = pop[j].va; pop[i].vb = pop[j].vb; pop[i].ys = std::vector<double>(pop[j].ys); ++copied; log += " assign(" + show(j) + "->" + show(i) + ")"; }
        }
        for(std::size_t i = 0; i < pop.size(); ++i)
        {
            Live const &l = pop[i]; A const &a = *l.a; std::string e;
            if(&reference_tag<my::tag::ref_a>(a) != &ia[l.cell] || &boost::accumulators::reference<int, my::tag::ref_a>(a) != &ia[l.cell]) e = "the first reference is not to the object given";
            if(&reference_tag<my::tag::ref_b>(a) != &db[l.cell] || &boost::accumulators::reference<double, my::tag::ref_b>(a) != &db[l.cell]) e = "the second reference is not to the object given";
            if(value_tag<my::tag::val_a>(a) != l.va || boost::accumulators::value<int, my::tag::val_a>(a) != l.va) e = "the first value is " + show(value_tag<my::tag::val_a>(a)) + ", given was " + show(l.va);
            if(value_tag<my::tag::val_b>(a) != l.vb || boost::accumulators::value<double, my::tag::val_b>(a) != l.vb) e = "the second value is " + show(value_tag<my::tag::val_b>(a)) + ", given was " + show(l.vb);
            if(count(a) != l.ys.size()) e = "count is " + show(count(a));
            if(!e.empty()) { s.note(log); fail("set " + show(i) + ": " + e); }
        }
    }
    s.note(log); if(changed && copied) s.nontrivial();
}
PBT(value_of_temporary, 1, "the source object changed after construction")
{   // a value is taken at construction: the object it came from may change or go away
    typedef accumulator_set<int, stats<tag::value<std::string, my::tag::val_a>, tag::sum> > A; std::unique_ptr<A> a; std::string was; { std::string t(1 + s.draw(40), (char)('a' + s.draw(26))); was = t; a.reset(new A(my::val_a = t)); t.assign(60, '!'); }
    int n = (int)s.draw(5); long sumv = 0; for(int i = 0; i < n; ++i) { int x = (int)s.signedint(50); (*a)(x); sumv += x; } s.note(was + " " + show(n)); std::string got = value_tag<my::tag::val_a>(*a); if(got != was) fail("the value is " + got); if(sum(*a) != sumv) fail("sum"); s.nontrivial();
}
