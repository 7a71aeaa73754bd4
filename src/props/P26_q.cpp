#define KITS_GROUP 0
#include "P26.hpp"
// A drop that fails for want of memory has not happened; it can be repeated. The result is a vector: it is made, and kept, at the drop.
namespace boost { namespace accumulators {
struct total_impl : accumulator_base
{
    typedef std::vector<double> result_type; std::vector<double> t; template<class Args> total_impl(Args const &args) : t(args[sample | std::vector<double>()].size()) {} template<class Args> void operator ()(Args const &args) { for(std::size_t d = 0; d < t.size(); ++d) t[d] += args[sample][d]; }
    result_type result(dont_care) const { return t; }
};
struct scaled_impl : accumulator_base
{
    typedef std::vector<double> result_type; scaled_impl(dont_care) {} template<class Args> result_type result(Args const &args) const;
};
namespace tag { struct total : depends_on<> { typedef mpl::always<total_impl> impl; }; struct scaled : depends_on<total, count> { typedef mpl::always<scaled_impl> impl; }; }
template<class Args> std::vector<double> scaled_impl::result(Args const &args) const { std::vector<double> r = find_accumulator<tag::total>(args[accumulator]).result(args); for(double &x : r) x /= count(args); return r; }
template<> struct droppable_accumulator<scaled_impl> : droppable_accumulator_base<with_cached_result<scaled_impl> >
    { typedef droppable_accumulator_base<with_cached_result<scaled_impl> > base_; template<class Args> droppable_accumulator(Args const &args) : base_(args) {} droppable_accumulator(droppable_accumulator const &o) : base_(*static_cast<base_ const *>(&o)) {} };
}}
template<class Set> void drops(Src &s, char const *name)
{
    typedef Set set; std::size_t const dim = 1 + s.draw(5); auto st = gen::stream<double>(s, 0, 3, 60); std::size_t const at = 1 + s.draw(st.v.size() - 1), more = s.draw(st.v.size() - at), k = s.draw(6), ck = s.draw(8); bool const again = s.flip(); s.note(std::string(name) + " dimension " + show(dim) + " samples " + showv(st.v) + ", dropped after " + show(at) + " with failing allocation " + show(k) + (again ? " and again" : "") + " later by " + show(more));
    auto vec = [&](std::size_t i) { Vec v; for(std::size_t d = 0; d < dim; ++d) v.push_back(st.v[i] + d); return v; }; bool failed = false, cfailed = false; std::string bad;
    auto life = [&]()
    {
        set a(sample = Vec(dim)); accumulator_set<Vec, features<tag::scaled> > plain(sample = Vec(dim)); Vec frozen; bool dropped = false; std::size_t i = 0;
        auto feed = [&](std::size_t to) { for(; i < to; ++i) { a(vec(i)); plain(vec(i)); } }; auto check = [&](set const &t, char const *what) { Vec x = extract_result<tag::scaled>(t), y = dropped ? frozen : (Vec)extract_result<tag::scaled>(plain); if(!identical(x, y) && bad.empty()) bad = std::string(what) + ": result " + showv(x) + ", expected " + showv(y); };
        feed(at); { Vec f = extract_result<tag::scaled>(plain); { Arm g((long)k); try { a.template drop<tag::scaled>(); dropped = true; } catch(std::bad_alloc const &) { failed = true; } } if(dropped) frozen = f; } check(a, "after the drop that may have failed");
        feed(at + more); check(a, "with further samples"); if(!dropped && again) { frozen = extract_result<tag::scaled>(plain); a.template drop<tag::scaled>(); dropped = true; check(a, "after the repeated drop"); }
        { Arm g((long)ck); try { set b(a); } catch(std::bad_alloc const &) { cfailed = true; } } check(a, "after a copy that may have failed"); { set b(a); check(b, "copy"); }
        feed(st.v.size()); check(a, "at the end");
    };
    life(); CHECK_MSG(bad.empty(), bad); { long before = mem_live; life(); long after = mem_live; CHECK_EQ(after - before, 0L, "bytes left behind by sets that are gone"); } if(failed) s.label("drop failed"); if(cfailed) s.label("copy failed"); if(failed || cfailed) s.nontrivial();
}
PBT(drops_all, 1, "the drop or the copy failed for want of memory") { drops<accumulator_set<Vec, features<droppable<tag::scaled> > > >(s, "nothing goes on"); }
PBT(drops_some, 1, "the drop or the copy failed for want of memory") { drops<accumulator_set<Vec, features<droppable<tag::scaled>, tag::total, tag::count> > >(s, "what it reads goes on"); }
