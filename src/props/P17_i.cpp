// accumulators that keep the value they had when they were dropped (with_cached_result), in sets where what they read goes on
#include "P17.hpp"
// a result that knows whether it was constructed: nobody may copy or destroy one that was not
static std::size_t strangers; static long living;
struct tracked
{
    tracked *self; double value; explicit tracked(double v = 0) : self(this), value(v) { ++living; } tracked(tracked const &o) : self(this), value(o.self == &o ? o.value : -1) { ++living; if(o.self != &o) ++strangers; }
    tracked &operator =(tracked const &o) { if(o.self != &o || self != this) ++strangers; value = o.value; return *this; } ~tracked() { if(self != this) ++strangers; else --living; self = 0; }
};
template<int K> struct twice_impl : accumulator_base { typedef tracked result_type; twice_impl(dont_care) {} template<class Args> result_type result(Args const &args) const { return result_type(2 * (double)sum(args)); } };
template<int K> struct half_impl : accumulator_base { typedef double result_type; half_impl(dont_care) {} template<class Args> result_type result(Args const &args) const { return (double)count(args) / 2 + K; } };
template<int K> struct twice : depends_on<tag::sum> { typedef boost::mpl::always<twice_impl<K> > impl; };
template<int K> struct half : depends_on<tag::count> { typedef boost::mpl::always<half_impl<K> > impl; };
namespace boost { namespace accumulators {
#define CACHED(T) template<int K> struct droppable_accumulator<T<K> > : droppable_accumulator_base<with_cached_result<T<K> > > \
    { typedef droppable_accumulator_base<with_cached_result<T<K> > > base_; template<class Args> droppable_accumulator(Args const &args) : base_(args) {} droppable_accumulator(droppable_accumulator const &that) : base_(*static_cast<base_ const *>(&that)) {} };
CACHED(twice_impl) CACHED(half_impl)
}}
// Model: per set the sum and count, and the frozen results. Copies are made before and after drops.
template<class Set> void cached(Src &s)
{
    strangers = 0; living = 0;
    struct Live { std::unique_ptr<Set> a; double sum; std::size_t n; bool gone[2]; double at_sum; std::size_t at_n; }; std::vector<Live> pop; { Live l; l.a.reset(new Set()); l.sum = 0; l.n = 0; l.gone[0] = l.gone[1] = false; l.at_sum = 0; l.at_n = 0; pop.push_back(std::move(l)); }
    std::size_t ops = 0, nd = 0, after = 0; std::string log;
    while(ops < 100 && s.more(20))
    {
        ++ops; std::size_t j = s.draw(pop.size()); Live &l = pop[j];
        switch(s.draw(7))
        {
        default: { double x = (double)s.signedint(16) / 2; (*l.a)(x); l.sum += x; ++l.n; log += " push(" + show(j) + "," + show(x) + ")"; if(l.gone[0] || l.gone[1]) ++after; break; }
        case 4: if(!l.gone[0]) { l.a->template drop<twice<3> >(); l.gone[0] = true; l.at_sum = l.sum; ++nd; log += " drop(" + show(j) + ",twice)"; } break;
        case 5: if(!l.gone[1]) { l.a->template drop<half<1> >(); l.gone[1] = true; l.at_n = l.n; ++nd; log += " drop(" + show(j) + ",half)"; } break;
        case 6: if(pop.size() < 4) { Live c; c.a.reset(new Set(*l.a)); c.sum = l.sum; c.n = l.n; c.gone[0] = l.gone[0]; c.gone[1] = l.gone[1]; c.at_sum = l.at_sum; c.at_n = l.at_n; pop.push_back(std::move(c)); log += " copy(" + show(j) + ")"; } else if(pop.size() > 1 && j + 1 == pop.size()) { pop.pop_back(); log += " destroy(" + show(j) + ")"; } break;
        }
        for(std::size_t k = 0; k < pop.size(); ++k)
        {
            Live const &m = pop[k]; double t = extract_result<twice<3> >(*m.a).value; double h = extract_result<half<1> >(*m.a);
            if(t != 2 * (m.gone[0] ? m.at_sum : m.sum)) { s.note(log); fail("set " + show(k) + ": twice the sum is " + show(t) + ", expected " + show(2 * (m.gone[0] ? m.at_sum : m.sum))); }
            if(h != (double)(m.gone[1] ? m.at_n : m.n) / 2 + 1) { s.note(log); fail("set " + show(k) + ": half the count plus one is " + show(h) + ", count " + show(m.gone[1] ? m.at_n : m.n)); }
            if((double)sum(*m.a) != m.sum || count(*m.a) != m.n) { s.note(log); fail("set " + show(k) + ": the kept sum and count"); }
        }
    }
    s.note(log); pop.clear(); CHECK_MSG(living == 0, "cached results are destroyed with their set: " + show(living) + " left"); CHECK_MSG(strangers == 0, show(strangers) + " results were copied or destroyed that had never been constructed"); if(nd && after) s.nontrivial();
}
PBT(cached_result, 1, "a sample arrived after a feature that caches its result was dropped") { cached<accumulator_set<double, features<tag::sum, tag::count, droppable<twice<3> >, droppable<half<1> > > > >(s); }
PBT(cached_result_reversed, 1, "a sample arrived after a feature that caches its result was dropped") { cached<accumulator_set<double, features<droppable<half<1> >, droppable<twice<3> >, tag::count, tag::sum> > >(s); }
