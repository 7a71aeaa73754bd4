// the library's own statistics, made droppable
#include "P17.hpp"
template<class T> struct tt { typedef T type; };
// F...: features, all droppable. As long as a feature has not been dropped it must have the value it has in a set of its own;
// once every feature has been dropped, nothing changes any more.
template<class W, class... F> struct drops
{
    typedef accumulator_set<double, stats<droppable<F>...>, W> set;
    template<class A> static void push(A &a, double x, double w, tt<void>) { a(x); }
    template<class A> static void push(A &a, double x, double w, tt<double>) { a(x, weight = w); }
    template<class G> struct ref { typedef accumulator_set<double, stats<G>, W> type; };
    static void run(Src &s)
    {
        auto st = gen::stream<double>(s, 0, 1, 60); int const n = sizeof...(F); set a = s.flip() ? set() : s.flip() ? set(0.) : set(0., covariate1 = 1); std::tuple<accumulator_set<double, stats<F>, W>...> r; std::vector<char> gone(n, 0); int left = n; bool after = false; std::vector<double> frozen; std::string log;
        double (*val[])(set const &) = { &value_of<set, F>... }; void (*dr[])(set &) = { &drop_of<F>... };
        for(double x : st.v)
        {
            double w = (double)s.integer(1, 8) / 4; push(a, x, w, tt<W>()); std::apply([&](auto &... q) { (push(q, x, w, tt<W>()), ...); }, r); if(s.noting()) log += " " + show(x) + "*" + show(w); if(left < n) after = true;
            std::vector<double> want; std::apply([&](auto &... q) { (want.push_back(value_of<typename std::decay<decltype(q)>::type, F>(q)), ...); }, r);
            for(int i = 0; i < n; ++i) if(!gone[i] && !pbt::same(val[i](a), want[i])) { s.note(log); fail("feature " + show(i) + ", not dropped: got " + show(val[i](a)) + ", in a set of its own " + show(want[i])); }
            if(left == 0) for(int i = 0; i < n; ++i) if(!pbt::same(val[i](a), frozen[i])) { s.note(log); fail("feature " + show(i) + " changed after everything was dropped: " + show(val[i](a)) + ", was " + show(frozen[i])); }
            if(left && s.chance(1, 5)) { int u = (int)s.draw(n); if(!gone[u]) { double v = val[u](a); dr[u](a); gone[u] = 1; --left; log += " drop(" + show(u) + ")"; CHECK_MSG(pbt::same(v, val[u](a)), "dropping does not change the value"); if(!left) for(int i = 0; i < n; ++i) frozen.push_back(val[i](a)); } }
        }
        s.note(log); if(after) s.nontrivial(); if(!left) s.label("everything dropped");
    }
    template<class G> static void drop_of(set &a) { a.template drop<G>(); }
    template<class A, class G> static double value_of(A const &a) { return (double)extract_result<G>(a); }
};
#define DROPS(NAME, ...) PBT(NAME, 1, "a sample arrived after a feature was dropped") { drops<__VA_ARGS__>::run(s); }
