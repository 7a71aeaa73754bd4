// Random dependency graphs of user-defined features, generated at compile time from a seed: every feature has a default
// implementation, some have an alternative one and some a weighted one, each with dependencies of its own.
#include "../gen.hpp"
#include <memory>
#include <boost/mpl/always.hpp>
#include <boost/accumulators/accumulators.hpp>
using namespace boost::accumulators; using namespace pbt;
typedef std::uint64_t U;
constexpr U hsh(U a, U b, U c, U d = 0) { U z = a * 0x9e3779b97f4a7c15ULL + b * 0xbf58476d1ce4e5b9ULL + c * 0x94d049bb133111ebULL + d * 0xd6e8feb86659fd93ULL + 0x1234567; z ^= z >> 30; z *= 0xbf58476d1ce4e5b9ULL; z ^= z >> 27; z *= 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static int const NN = 8;
// kind of a node: 0 default, 1 alternative (chosen by the user), 2 weighted (chosen by the library when the set has weights)
constexpr int ndeps(int S, int K, int I) { return I == 0 ? 0 : (int)(hsh(S, K, I, 77) % 4) < I ? (int)(hsh(S, K, I, 77) % 4) : I; }
constexpr int dep(int S, int K, int I, int k)
{   // k-th dependency: distinct nodes below I
    if(k >= ndeps(S, K, I)) return -1;
    int used[4] = { -1, -1, -1, -1 }, r = -1;
    for(int j = 0; j <= k; ++j) { r = (int)(hsh(S, K, I, 100 + j) % I); for(bool again = true; again;) { again = false; for(int m = 0; m < j; ++m) if(used[m] == r) { r = (r + 1) % I; again = true; } } used[j] = r; }
    return r;
}
constexpr bool has_weighted(int S, int I) { return hsh(S, I, 5) % 2; }
constexpr bool has_alt(int S, int I) { return hsh(S, I, 6) % 3 == 0; }
static std::vector<int> update_log;   // codes of the accumulators updated by the current sample
template<int S, int I> struct vn; template<int S, int I> struct alt; template<int S, int I> struct wn;
template<int S, int J> struct rd { template<class Args> static U get(Args const &args) { return extract_result<vn<S, J> >(args[accumulator]); } };
template<int S> struct rd<S, -1> { template<class Args> static U get(Args const &) { return 0; } };
template<int S, int K, int I> struct vimpl : accumulator_base
{
    typedef U result_type; U v, init; static int const code = K * NN + I, index = I;
    template<class Args> vimpl(Args const &args) : v((U)args[sample | 7]), init(v) {}
    template<class Args> void operator ()(Args const &args)
    {
        update_log.push_back(K * NN + I);
        v = v * 3 + (U)args[sample] * (I + 1) + 1000 * K + rd<S, dep(S, K, I, 0)>::get(args) + 5 * rd<S, dep(S, K, I, 1)>::get(args) + 25 * rd<S, dep(S, K, I, 2)>::get(args);
    }
    result_type result(dont_care) const { return v; }
};
template<int S, int A, int B, int C> struct don : depends_on<vn<S, A>, vn<S, B>, vn<S, C> > {};
template<int S, int A, int B> struct don<S, A, B, -1> : depends_on<vn<S, A>, vn<S, B> > {};
template<int S, int A> struct don<S, A, -1, -1> : depends_on<vn<S, A> > {};
template<int S> struct don<S, -1, -1, -1> : depends_on<> {};
template<int S, int K, int I> struct nodebase : don<S, dep(S, K, I, 0), dep(S, K, I, 1), dep(S, K, I, 2)> { typedef boost::mpl::always<vimpl<S, K, I> > impl; };
template<int S, int I> struct vn : nodebase<S, 0, I> {};
template<int S, int I> struct alt : nodebase<S, 1, I> {};
template<int S, int I> struct wn : nodebase<S, 2, I> {};
namespace boost { namespace accumulators {
template<int S, int I> struct feature_of<alt<S, I> > : feature_of<vn<S, I> > {};
template<int S, int I> struct feature_of<wn<S, I> > : feature_of<vn<S, I> > {};
template<int S, int I> struct as_weighted_feature<vn<S, I> > { typedef typename std::conditional<has_weighted(S, I), wn<S, I>, vn<S, I> >::type type; };
}}
// what a visitor sees
struct Seen { int code; void const *at; };
struct watch { std::vector<Seen> *to; U add; template<class A> void operator ()(A &a) const { to->push_back(Seen{ A::code, &a.v }); a.v += add; } };
template<int M> struct in_class { template<class A> struct apply : boost::mpl::bool_<A::index % 2 == M> {}; };
// what the user lists: 2..6 entries, duplicates allowed, in no particular order; an alternative is listed in place of the default
constexpr int nlist(int S) { return 2 + (int)(hsh(S, 9, 9) % 4); }
constexpr int listed(int S, int k) { int b = (int)(hsh(S, 10, k) % NN), c = (int)(hsh(S, 11, k) % NN); return k == 0 ? (b > c ? b : c) : b; }
template<int S, int I> struct entry { typedef typename std::conditional<has_alt(S, I), alt<S, I>, vn<S, I> >::type type; };
template<int S, int N> struct lister;
template<int S> struct lister<S, 2> { typedef features<typename entry<S, listed(S, 0)>::type, typename entry<S, listed(S, 1)>::type> type; };
template<int S> struct lister<S, 3> { typedef features<typename entry<S, listed(S, 0)>::type, typename entry<S, listed(S, 1)>::type, typename entry<S, listed(S, 2)>::type> type; };
template<int S> struct lister<S, 4> { typedef features<typename entry<S, listed(S, 0)>::type, typename entry<S, listed(S, 1)>::type, typename entry<S, listed(S, 2)>::type, typename entry<S, listed(S, 3)>::type> type; };
template<int S> struct lister<S, 5> { typedef features<typename entry<S, listed(S, 0)>::type, typename entry<S, listed(S, 1)>::type, typename entry<S, listed(S, 2)>::type, typename entry<S, listed(S, 3)>::type, typename entry<S, listed(S, 4)>::type> type; };
struct Resolved { bool in[NN]; int kind[NN]; };
constexpr Resolved resolve(int S, bool weighted)
{
    Resolved r{}; for(int i = 0; i < NN; ++i) { r.in[i] = false; r.kind[i] = weighted && has_weighted(S, i) ? 2 : 0; }
    for(int k = 0; k < nlist(S); ++k) { int i = listed(S, k); r.in[i] = true; if(has_alt(S, i)) r.kind[i] = 1; }
    for(int i = NN - 1; i >= 0; --i) if(r.in[i]) for(int k = 0; k < 3; ++k) { int d = dep(S, r.kind[i], i, k); if(d >= 0) r.in[d] = true; }
    return r;
}
template<int S, bool Weighted> struct graph18
{
    typedef typename lister<S, nlist(S)>::type feats;
    typedef typename std::conditional<Weighted, accumulator_set<double, feats, double>, accumulator_set<double, feats> >::type set;
    static constexpr Resolved R = resolve(S, Weighted);
    template<int I> static U get1(set const &a) { if constexpr(R.in[I]) return extract_result<vn<S, I> >(a); else return 0; }
    static std::vector<U> get(set const &a) { return { get1<0>(a), get1<1>(a), get1<2>(a), get1<3>(a), get1<4>(a), get1<5>(a), get1<6>(a), get1<7>(a) }; }
    template<int I> static void found1(set &a, U const *m, std::vector<void const *> &at)
    {
        if constexpr(R.in[I])
        {
            set const &c = a; auto &f = find_accumulator<vn<S, I> >(a); auto const &g = find_accumulator<vn<S, I> >(c); auto &h = a.template extract<vn<S, I> >(); auto const &k = c.template extract<vn<S, I> >();
            CHECK_MSG(&f.v == &g.v && &f.v == &h.v && &f.v == &k.v, "looking feature " + show(I) + " up in four ways finds different accumulators"); at[I] = &f.v;
            CHECK_EQ(f.v, m[I], "state of the accumulator found for feature " + show(I)); CHECK_EQ(f.result(accumulator = a), m[I], "result of the accumulator found for feature " + show(I)); CHECK_EQ((extractor<vn<S, I> >()(a)), m[I], "extractor of feature " + show(I));
        }
    }
    static std::vector<void const *> found(set &a, U const *m) { std::vector<void const *> at(NN, (void const *)0); found1<0>(a, m, at); found1<1>(a, m, at); found1<2>(a, m, at); found1<3>(a, m, at); found1<4>(a, m, at); found1<5>(a, m, at); found1<6>(a, m, at); found1<7>(a, m, at); return at; }
    // every accumulator (of the class, if any) is visited once, where lookup finds it, after those it depends on
    static void visits(std::vector<Seen> const &l, std::vector<void const *> const &at, int cls, char const *how)
    {
        std::vector<int> pos(NN, -1); for(std::size_t k = 0; k < l.size(); ++k) { int i = l[k].code % NN; CHECK_MSG(pos[i] < 0, std::string(how) + " visits feature " + show(i) + " twice"); pos[i] = (int)k; if(!R.in[i]) continue; CHECK_EQ(l[k].code / NN, R.kind[i], std::string(how) + ": implementation of feature " + show(i)); CHECK_MSG(l[k].at == at[i], std::string(how) + ": feature " + show(i) + " is not the accumulator in the set"); }
        for(int i = 0; i < NN; ++i) { bool want = cls < 0 || i % 2 == cls; if(R.in[i] && want) CHECK_MSG(pos[i] >= 0, std::string(how) + " misses feature " + show(i)); if(!want) CHECK_MSG(pos[i] < 0, std::string(how) + " visits feature " + show(i) + ", which the predicate excludes"); if(R.in[i] && pos[i] >= 0) for(int k = 0; k < 3; ++k) { int d = dep(S, R.kind[i], i, k); if(d >= 0 && pos[d] >= 0) CHECK_MSG(pos[d] < pos[i], std::string(how) + " visits feature " + show(i) + " before feature " + show(d) + ", which it depends on"); } }
    }
    static void look(Src &s, set &a, U *m, std::string &log)
    {
        auto at = found(a, m); U add = s.draw(3); int kind = (int)s.draw(3); std::vector<Seen> l; watch w = { &l, add }; log += kind == 0 ? " visit" : kind == 1 ? " visit even" : " visit odd"; if(add) log += "+" + show(add);
        if(kind == 0) { a.visit(w); visits(l, at, -1, "visit"); } else if(kind == 1) { a.template visit_if<in_class<0> >(w); visits(l, at, 0, "visit_if even"); } else { a.template visit_if<in_class<1> >(w); visits(l, at, 1, "visit_if odd"); }
        for(int i = 0; i < NN; ++i) if(R.in[i] && (kind == 0 || i % 2 == kind - 1)) m[i] += add;
        found(a, m);
    }
    static std::string shape() { std::string o = "features"; for(int i = 0; i < NN; ++i) if(R.in[i]) { o += " " + show(i) + (R.kind[i] == 1 ? "alt" : R.kind[i] == 2 ? "w" : "") + "("; for(int k = 0; k < 3; ++k) { int d = dep(S, R.kind[i], i, k); if(d >= 0) o += (k ? "," : "") + show(d); } o += ")"; } o += " listed"; for(int k = 0; k < nlist(S); ++k) o += " " + show(listed(S, k)); return o; }
    static void run(Src &s)
    {
        bool given = s.flip(); U first = given ? (U)s.integer(0, 9) : 7; if(s.noting()) s.note(shape() + (given ? " initial sample " + show(first) : ""));
        set *p = given ? new set(sample = (double)first) : new set(); std::unique_ptr<set> own(p); set &a = *p; U m[NN]; for(auto &x : m) x = first; std::string log; struct Noted { Src &s; std::string &l; ~Noted() { s.note(l); } } noted = { s, log };
        int members = 0; for(int i = 0; i < NN; ++i) members += R.in[i];
        std::size_t n = 0; 
        do
        {
            double x = (double)s.integer(0, 50); update_log.clear(); log += " " + show(x);
            switch(s.draw(3)) { case 0: feed(a, x); break; case 1: feedn(a, x); break; default: { set b(a); feed(b, x); update_log.clear(); a = b; for(int i = 0; i < NN; ++i) if(R.in[i]) update_log.push_back(R.kind[i] * NN + i); break; } }
            std::vector<int> l = update_log; std::vector<int> times(NN, 0); for(int c : l) ++times[c % NN];
            for(int i = 0; i < NN; ++i) if(R.in[i] ? times[i] != 1 : times[i] > 1) { fail("one sample updated feature " + show(i) + " " + show(times[i]) + " times"); }
            for(int c : l) if(R.in[c % NN] && c / NN != R.kind[c % NN]) { fail("the set holds implementation " + show(c / NN) + " of feature " + show(c % NN) + ", expected " + show(R.kind[c % NN])); }
            for(int i = 0; i < NN; ++i) if(R.in[i]) { int k = R.kind[i]; U d[3]; for(int q = 0; q < 3; ++q) d[q] = dep(S, k, i, q) >= 0 ? m[dep(S, k, i, q)] : 0; m[i] = m[i] * 3 + (U)x * (i + 1) + 1000 * k + d[0] + 5 * d[1] + 25 * d[2]; }
            std::vector<U> g = get(a); for(int i = 0; i < NN; ++i) if(R.in[i] && g[i] != m[i]) { fail("feature " + show(i) + " is " + show(g[i]) + ", expected " + show(m[i]) + ": it was not updated after its dependencies"); }
            ++n; if(s.draw(3) == 2) look(s, a, m, log);
        } while(n < 40 && s.more(4));
        if(members >= 3 && n >= 2) s.nontrivial();
    }
    static void feed(set &a, double x) { if constexpr(Weighted) a(x, weight = 2.0); else a(x); }
    static void feedn(set &a, double x) { if constexpr(Weighted) a(sample = x, weight = 2.0); else a(sample = x); }
};
#define GRAPH18(S) PBT(graph_##S, 1, "at least three features in the set and two samples") { graph18<S, false>::run(s); } PBT(wgraph_##S, 1, "at least three features in the set and two samples") { graph18<S, true>::run(s); }
