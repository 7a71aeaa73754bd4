#include "../gen.hpp"
#include <boost/mpl/always.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <memory>
using namespace boost::accumulators; using namespace pbt; using gen::LD;
// A dependency graph of features whose accumulators count how often they are updated, and how often they are told of their drop.
template<int I> struct node_impl : accumulator_base { typedef std::size_t result_type; std::size_t n, left; node_impl(dont_care) : n(0), left(0) {} void operator ()(dont_care) { ++n; } void on_drop(dont_care) { ++left; } result_type result(dont_care) const { return n + (left << 32); } };
template<int I> struct node;
#define NODE(I, ...) template<> struct node<I> : depends_on<__VA_ARGS__> { typedef boost::mpl::always<node_impl<I> > impl; };
NODE(0) template<> struct node<1> : depends_on<node<0> > { typedef boost::mpl::always<node_impl<1> > impl; };
template<> struct node<2> : depends_on<node<0> > { typedef boost::mpl::always<node_impl<2> > impl; };
template<> struct node<3> : depends_on<node<1>, node<2> > { typedef boost::mpl::always<node_impl<3> > impl; };
template<> struct node<4> : depends_on<node<2> > { typedef boost::mpl::always<node_impl<4> > impl; };
template<> struct node<5> : depends_on<node<3>, node<4> > { typedef boost::mpl::always<node_impl<5> > impl; };
template<> struct node<6> : depends_on<> { typedef boost::mpl::always<node_impl<6> > impl; };
static int const deps_of[7][2] = { { -1, -1 }, { 0, -1 }, { 0, -1 }, { 1, 2 }, { 2, -1 }, { 3, 4 }, { -1, -1 } };
inline bool reaches(int a, int b) { if(a == b) return true; for(int k = 0; k < 2; ++k) if(deps_of[a][k] >= 0 && reaches(deps_of[a][k], b)) return true; return false; }
template<int C> struct pick { typedef typename std::conditional<(C % 2) != 0, droppable<node<C / 2> >, node<C / 2> >::type type; };
template<class A, int I> std::size_t cnt_of(A const &a) { return extract_result<node<I> >(a); }
template<class A, int C> typename std::enable_if<(C % 2) != 0>::type drop_one(A &a) { a.template drop<node<C / 2> >(); }
template<class A, int C> typename std::enable_if<(C % 2) == 0>::type drop_one(A &) {}
// Code: 2 * node + droppable. Sets are copied and assigned too: the dropped state goes with the copy.
template<int... C> struct graph
{
    typedef accumulator_set<double, features<typename pick<C>::type...> > set; static int const n = sizeof...(C);
    struct Live { std::unique_ptr<set> a; std::vector<char> gone; std::size_t seen[7]; };
    // whichever constructor is used, nothing is dropped to begin with
    static set *fresh(Src &s, std::string &log)
    {
        int k = (int)s.draw(8); log += " constructor " + show(k);
        switch(k) { default: return new set(); case 1: return new set(sample = 0.0); case 2: return new set(0.0); case 3: return new set(0.0, weight = 1); case 4: return new set(sample = 0.0, weight = 1); case 5: return new set(weight = 1, sample = 0.0, quantile_probability = 0.5); case 6: return new set(0.0, weight = 1, quantile_probability = 0.5); case 7: return new set(0.0, weight = 1, quantile_probability = 0.5, tag::tail<left>::cache_size = 2); }
    }
    static void run(Src &s)
    {
        int const code[] = { C... }; void (*drops[])(set &) = { &drop_one<set, C>... }; bool in[7] = {}; for(int i = 0; i < 7; ++i) for(int u = 0; u < n; ++u) if(reaches(code[u] / 2, i)) in[i] = true;
        std::string log; std::vector<Live> pop; { Live l; l.a.reset(fresh(s, log)); l.gone.assign(n, 0); for(auto &x : l.seen) x = 0; pop.push_back(std::move(l)); } std::size_t nd = 0, after = 0, ops = 0;
        while(ops < 200 && s.more(25))
        {
            ++ops; std::size_t j = s.draw(pop.size()); Live &l = pop[j];
            switch(s.draw(8))
            {
            default: (*l.a)(1.0); if(nd) ++after; log += " sample(" + show(j) + ")"; for(int i = 0; i < 7; ++i) if(in[i]) { bool alive = false; for(int u = 0; u < n; ++u) if(!l.gone[u] && reaches(code[u] / 2, i)) alive = true; if(alive) ++l.seen[i]; } break;
            case 4: case 5: { int u = (int)s.draw(n); if(code[u] % 2 && !l.gone[u]) { drops[u](*l.a); l.gone[u] = 1; ++nd; log += " drop(" + show(j) + ",node " + show(code[u] / 2) + ")"; } break; }
            case 6: if(pop.size() < 4) { Live c; c.a.reset(new set(*l.a)); c.gone = l.gone; std::copy(l.seen, l.seen + 7, c.seen); pop.push_back(std::move(c)); log += " copy(" + show(j) + ")"; } break;
            case 7: { std::size_t k = s.draw(pop.size()); *pop[k].a = *l.a; pop[k].gone = std::vector<char>(l.gone); if(k != j) std::copy(l.seen, l.seen + 7, pop[k].seen); log += " assign(" + show(j) + "->" + show(k) + ")"; break; }
            }
            check(s, pop, in, log);
        }
        s.note(log); if(nd && after) s.nontrivial();
    }
    static void check(Src &s, std::vector<Live> const &pop, bool const *in, std::string const &log) { for(std::size_t j = 0; j < pop.size(); ++j) { std::size_t got[7]; get(*pop[j].a, got); for(int i = 0; i < 7; ++i) if(in[i])
    {
        int const code[] = { C... }; bool alive = false; for(int u = 0; u < n; ++u) if(!pop[j].gone[u] && reaches(code[u] / 2, i)) alive = true; std::size_t const times = got[i] & 0xffffffffu, told = got[i] >> 32;
        if(times != pop[j].seen[i]) { s.note(log); fail("set " + show(j) + ", node " + show(i) + " was updated " + show(times) + " times, expected " + show(pop[j].seen[i])); }
        if(told != (alive ? 0u : 1u)) { s.note(log); fail("set " + show(j) + ", node " + show(i) + " was told " + show(told) + " times that it is dropped, expected " + show(alive ? 0 : 1)); }
    } } }
    template<int I> static constexpr bool has() { int const code[] = { C... }; bool r = false; for(int u = 0; u < n; ++u) r = r || reach(code[u] / 2, I); return r; }
    static constexpr bool reach(int a, int b) { int const d[7][2] = { { -1, -1 }, { 0, -1 }, { 0, -1 }, { 1, 2 }, { 2, -1 }, { 3, 4 }, { -1, -1 } }; return a == b || (d[a][0] >= 0 && reach(d[a][0], b)) || (d[a][1] >= 0 && reach(d[a][1], b)); }
    template<int I> static void get1(set const &a, std::size_t *g) { if constexpr(has<I>()) g[I] = extract_result<node<I> >(a); else g[I] = 0; }
    static void get(set const &a, std::size_t *g) { get1<0>(a, g); get1<1>(a, g); get1<2>(a, g); get1<3>(a, g); get1<4>(a, g); get1<5>(a, g); get1<6>(a, g); }
};
#define GRAPH(NAME, ...) PBT(NAME, 1, "a feature was dropped and samples arrived afterwards") { graph<__VA_ARGS__>::run(s); }
