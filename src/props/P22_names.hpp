// Named arguments: whatever their number and order, every accumulator of the set sees each argument of the constructor,
// of the push and of the extraction under its own name, and the default where an argument is absent.
#include "../gen.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <utility>
#include <memory>
using namespace boost::accumulators; using namespace pbt;
enum { NK = 13 };
template<int I> struct kt { typedef boost::parameter::forward_reference qualifier; };
template<int I> boost::parameter::keyword<kt<I> > const &kw() { return boost::parameter::keyword<kt<I> >::instance; }
typedef std::vector<long> row;
template<class A, std::size_t... I> row read(A const &a, std::index_sequence<I...>) { long dflt = -7; return row{ (long)a[kw<(int)I>() | dflt]... }; }
typedef std::make_index_sequence<NK> all;
namespace boost { namespace accumulators {
namespace impl { template<class S, class Which> struct echo : accumulator_base { typedef std::vector<row> result_type; row at_ctor; std::vector<row> at_push; std::vector<long> got; template<class A> echo(A const &a) : at_ctor(read(a, all())) { at_ctor.push_back((long)a[sample | (long)-9]); } template<class A> void operator()(A const &a) { row r = read(a, all()); r.push_back((long)a[sample | (long)-9]); at_push.push_back(r); } template<class A> result_type result(A const &a) const { result_type r; r.push_back(at_ctor); r.insert(r.end(), at_push.begin(), at_push.end()); r.push_back(read(a, all())); return r; } }; }
namespace tag { struct echo_a : depends_on<> { typedef accumulators::impl::echo<mpl::_1, mpl::true_> impl; }; struct echo_b : depends_on<echo_a, count> { typedef accumulators::impl::echo<mpl::_1, mpl::false_> impl; }; }
namespace extract { extractor<tag::echo_a> const echo_a = {}; BOOST_ACCUMULATORS_IGNORE_GLOBAL(echo_a) } using extract::echo_a;
}}
typedef accumulator_set<long, stats<tag::echo_b, tag::sum> > set_t;
// N arguments chosen by order O: 0 = first N, 1 = last N reversed, 2 = from the middle, 3 = every fourth
template<int O, int I> struct at { enum { value = O == 0 ? I : O == 1 ? NK - 1 - I : O == 2 ? (I + 6) % NK : (4 * I + 2) % NK }; };
template<int O> row want(int n, row const &v) { row r(NK, -7); for(int i = 0; i < n; ++i) { int k = O == 0 ? i : O == 1 ? NK - 1 - i : O == 2 ? (i + 6) % NK : (4 * i + 2) % NK; r[k] = v[k]; } return r; }
static row give(Src &s) { row v(NK); for(long &x : v) x = s.signedint(9); return v; }
// the values outlive the call: lvalues are passed
template<int O, std::size_t... I> set_t *build(row const &v, std::index_sequence<I...>) { return new set_t((kw<at<O, (int)I>::value>() = v[at<O, (int)I>::value])...); }
template<int O, std::size_t... I> void push(set_t &a, long x, int how, row const &v, std::index_sequence<I...>) { if(how == 0) a(x, (kw<at<O, (int)I>::value>() = v[at<O, (int)I>::value])...); else if(how == 1) a(sample = x, (kw<at<O, (int)I>::value>() = v[at<O, (int)I>::value])...); else a((kw<at<O, (int)I>::value>() = v[at<O, (int)I>::value])..., sample = x); }
template<int O, std::size_t... I> std::vector<row> get(set_t const &a, int how, row const &v, std::index_sequence<I...>) { if(how == 0) return echo_a(a, (kw<at<O, (int)I>::value>() = v[at<O, (int)I>::value])...); if(how == 1) return extract_result<tag::echo_a>(a, (kw<at<O, (int)I>::value>() = v[at<O, (int)I>::value])...); extractor<tag::echo_b> e = {}; return e(a, (kw<at<O, (int)I>::value>() = v[at<O, (int)I>::value])...); }
template<int O> struct ops
{
    template<int N> static void push_n(set_t &a, int n, long x, int how, row const &v) { if(n == N) push<O>(a, x, how, v, std::make_index_sequence<N>()); else if constexpr(N < NK) push_n<N + 1>(a, n, x, how, v); }
    template<int N> static std::vector<row> get_n(set_t const &a, int n, int how, row const &v) { if(n == N) return get<O>(a, how, v, std::make_index_sequence<N>()); if constexpr(N < NK) return get_n<N + 1>(a, n, how, v); return std::vector<row>(); }
    template<int N> static set_t *build_n(int n, row const &v) { if(n == N) return build<O>(v, std::make_index_sequence<N>()); if constexpr(N < NK) return build_n<N + 1>(n, v); return 0; }
};
static std::string text(std::vector<row> const &t) { std::string r; for(row const &x : t) { r += " ("; for(long y : x) r += show(y) + ","; r += ")"; } return r; }
template<int O> void body(Src &s)
{
    int n = (int)s.draw(NK + 1); row v = give(s); std::unique_ptr<set_t> a; std::vector<row> expect; std::string log = "order " + show(O) + ", constructor " + show(n) + " arguments"; bool big = n > 3; long total = 0; std::size_t pushes = 0;
    if(n == 0 && s.chance(1, 2)) { long x = s.signedint(9); a.reset(new set_t(x)); row r = want<O>(0, v); r.push_back(x); expect.push_back(r); total = x; log += ", initial sample " + show(x); }
    else { a.reset(ops<O>::template build_n<0>(n, v)); row r = want<O>(n, v); r.push_back(-9); expect.push_back(r); }
    while(pushes < 12 && s.more(4)) { int m = (int)s.draw(NK + 1), how = (int)s.draw(3); row w = give(s); long x = s.signedint(9); ops<O>::template push_n<0>(*a, m, x, how, w); row r = want<O>(m, w); r.push_back(x); expect.push_back(r); total += x; ++pushes; big = big || m > 3; log += "; push " + show(x) + " with " + show(m); }
    for(int how = 0; how < 3; ++how)
    {
        int m = (int)s.draw(NK + 1); row w = give(s); std::vector<row> e = expect, g = ops<O>::template get_n<0>(*a, m, how, w); e.push_back(want<O>(m, w)); if(g != e) { s.note(log); fail("arguments seen" + text(g) + ", given" + text(e)); }
    }
    if(sum(*a) != total || count(*a) != pushes) { s.note(log); fail("sum " + show(sum(*a)) + " count " + show(count(*a)) + ", expected " + show(total) + " and " + show(pushes)); }
    s.note(log); if(big && pushes) s.nontrivial();
}
