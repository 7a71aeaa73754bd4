// samples, weights and variates given to a set of double in any arithmetic type that holds the value
#include "../kits.hpp"
using namespace pbt; using namespace kits;
template<class X, class W, class C> struct TIn { X x; W w; C c; };
struct Typed { int xk, wk; double x, w, c; };
// weights: 0 int, 1 unsigned, 2 float
template<class K, class X> void push_w(typename K::set &a, Typed const &t)
{
    X x = (X)t.x, c = (X)t.c;
    switch(t.wk) { case 0: K::push(a, TIn<X, int, X>{x, (int)t.w, c}); break; case 1: K::push(a, TIn<X, unsigned, X>{x, (unsigned)t.w, c}); break; default: K::push(a, TIn<X, float, X>{x, (float)t.w, c}); }
}
template<class K> void push_x(typename K::set &a, Typed const &t)
{
    switch(t.xk) { case 0: push_w<K, int>(a, t); break; case 1: push_w<K, unsigned>(a, t); break; case 2: push_w<K, short>(a, t); break; case 3: push_w<K, long long>(a, t); break; default: push_w<K, float>(a, t); }
}
inline double typed_value(Src &s, int k, int size)
{
    static long long const lim[5][4] = {{6, 1000, 100000, 2147483647LL}, {6, 1000, 100000, 4294967295LL}, {6, 100, 1000, 32767}, {6, 100000, 5000000000LL, 1LL << 46}, {6, 100, 4000, 1 << 20}};
    long long m = lim[k][size]; double d = (double)(k == 1 ? (long long)s.draw(m + 1) : s.signedint(m)); return k == 4 ? d / 4 : d;
}
template<class K> void typed(Src &s)
{
    Par p = params(s); typename K::set a = K::make(p), b = K::make(p); int xk = (int)s.draw(6), wk = (int)s.draw(4), size = (int)s.draw(4), wmax = s.flip() ? 5 : s.flip() ? 1000 : 100000; double q = qprob(s); std::set<double> seen; std::vector<In> in; std::string log; std::set<int> kinds;
    while(in.size() < 400 && s.more(25))
    {
        Typed t; t.xk = xk == 5 ? (int)s.draw(5) : xk; t.wk = wk == 3 ? (int)s.draw(3) : wk; t.x = typed_value(s, t.xk, size); t.c = typed_value(s, t.xk, size); t.w = (double)s.integer(1, wmax); if(t.wk == 2) t.w /= 8;
        if(needs_distinct<K>::value && !seen.insert(t.x).second) continue;
        static char const *const xn[] = {"int", "unsigned", "short", "long long", "float"}, *const wn[] = {"int", "unsigned", "float"};
        if(in.size() < 40) log += std::string(" ") + xn[t.xk] + "(" + show(t.x) + ") w " + wn[t.wk] + "(" + show(t.w) + ") c " + show(t.c) + ";"; kinds.insert(t.xk);
        In i = {t.x, t.w, t.c}; in.push_back(i); push_x<K>(a, t); K::push(b, i);
        if(in.size() >= K::ready(p) && s.draw(8) == 7) all_same<K>(a, b, q, "values in their own types and the same values as double");
    }
    s.note(std::string(K::name()) + " " + showp(p) + log); if(in.size() < K::ready(p)) return;
    all_same<K>(a, b, q, "values in their own types and the same values as double"); if(in.size() > 3) s.nontrivial();
}
#define TYPED(K) PBT(types_##K, 0.1, "more than three values, enough for the answers to be defined") { typed<K>(s); }
