// populations of sets that are copied, dropped from and destroyed: everything is given back, cached results included
#define KITS_GROUP 1
#include "P23.hpp"
#include <memory>
struct running_impl : accumulator_base { typedef Vec result_type; Vec v; template<class Args> running_impl(Args const &args) : v(args[quantile_probability | 5], 1.0) {} template<class Args> void operator ()(Args const &args) { for(double &x : v) x += args[sample]; } result_type result(dont_care) const { return v; } };
struct plain_impl : running_impl { template<class Args> plain_impl(Args const &args) : running_impl(args) {} };
struct running : depends_on<tag::count> { typedef boost::mpl::always<running_impl> impl; };
struct plain : depends_on<running, tag::sum> { typedef boost::mpl::always<plain_impl> impl; };
namespace boost { namespace accumulators {
template<> struct droppable_accumulator<running_impl> : droppable_accumulator_base<with_cached_result<running_impl> >
    { typedef droppable_accumulator_base<with_cached_result<running_impl> > base_; template<class Args> droppable_accumulator(Args const &args) : base_(args) {} droppable_accumulator(droppable_accumulator const &that) : base_(*static_cast<base_ const *>(&that)) {} };
}}
struct Op { int what; std::size_t which; double x; };
template<class Set> void run_ops(std::vector<Op> const &ops, int dims)
{
    std::unique_ptr<Set> pop[4]; bool gone[4][2] = {}; pop[0].reset(new Set(quantile_probability = dims));
    for(Op const &o : ops)
    {
        std::size_t j = o.which; if(!pop[j]) { if(o.what == 0) { pop[j].reset(new Set(quantile_probability = dims)); gone[j][0] = gone[j][1] = false; } continue; } Set &a = *pop[j];
        switch(o.what)
        {
        case 1: if(!gone[j][0]) { a.template drop<running>(); gone[j][0] = true; } break;
        case 2: if(!gone[j][1]) { a.template drop<plain>(); gone[j][1] = true; } break;
        case 3: { std::size_t k = (std::size_t)(o.x < 0 ? -o.x : o.x) % 4; if(k != j) { pop[k].reset(new Set(a)); gone[k][0] = gone[j][0]; gone[k][1] = gone[j][1]; } break; }
        case 4: pop[j].reset(); break;
        case 5: (void)extract_result<running>(a); (void)extract_result<plain>(a); break;
        default: a(o.x); break;
        }
    }
}
PBT(dropped_population, 4, "a set was dropped from and another copied or destroyed")
{
    std::vector<Op> ops; std::string log; int dims = 1 + (int)s.draw(40); bool dropped = false, copied = false; while(ops.size() < 60 && s.more(15)) { Op o; o.what = (int)s.draw(9); o.which = s.draw(4); o.x = (double)s.signedint(64); ops.push_back(o); log += " " + show(o.what) + "(" + show(o.which) + "," + show(o.x) + ")"; dropped |= o.what == 1 || o.what == 2; copied |= o.what == 3 || o.what == 4; }
    s.note("results of " + show(dims) + " numbers; operations (0 create, 1 2 drop, 3 copy, 4 destroy, 5 extract, others push):" + log);
    typedef accumulator_set<double, features<droppable<running>, droppable<plain>, tag::count> > A; run_ops<A>(ops, dims); long before = mem_live; run_ops<A>(ops, dims); CHECK_EQ(mem_live - before, 0L, "bytes left behind by sets that are gone");
    if(dropped && copied) s.nontrivial();
}
