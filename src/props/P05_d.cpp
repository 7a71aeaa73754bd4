// histories: push, copy, assign over a set with another window size; each set keeps its own window
#include "P05.hpp"
typedef accumulator_set<double, stats<tag::rolling_window, tag::rolling_sum, tag::rolling_mean, tag::rolling_variance, tag::rolling_moment<2> > > A;
static void compare(A const &a, Window<double> const &r)
{
    CHECK_EQ(rolling_count(a), r.d.size(), "rolling count"); same_range(rolling_window(a), r.d, "rolling window");
    if(r.d.empty()) return;
    std::size_t n = r.total; LD mx = r.mx;
    CHECK_EQ((LD)rolling_sum(a), r.sum(), "rolling sum"); CHECK_NEAR(rolling_mean(a), r.mean(), gen::tol<double>(n, mx), "rolling mean");
    CHECK_NEAR(rolling_variance(a), r.var(), gen::tol<double>(n, 16 * mx * mx), "rolling variance"); CHECK_NEAR(rolling_moment<2>(a), r.moment(2), gen::tol<double>(n, mx * mx), "rolling moment<2>");
}
PBT(rolling_history, 2, "a set was copied or assigned after its window rolled, and then used")
{
    std::vector<A> sets; std::vector<Window<double> > ref; std::string log; bool nt = false;
    for(int i = 0; i < 3; ++i) { std::size_t W = window_size(s); sets.push_back(A(tag::rolling_window::window_size = W)); ref.push_back(Window<double>(W)); log += "W" + show(W) + " "; }
    while(s.more(40))
    {
        std::size_t i = s.draw(3), j = s.draw(3); int op = (int)s.draw(8);
        if(op < 6) { double x = (double)s.signedint(100) / 4; sets[i](x); ref[i].add(x); log += show(i) + "<-" + show(x) + " "; }
        else if(op == 6) { sets[i] = sets[j]; ref[i] = ref[j]; log += show(i) + "=" + show(j) + " "; if(i != j && ref[j].total > ref[j].cap) nt = true; }
        else { A c(sets[j]); double x = (double)s.signedint(100) / 4; Window<double> rc(ref[j]); c(x); rc.add(x); compare(c, rc); log += "copy" + show(j) + "<-" + show(x) + " "; if(ref[j].total > ref[j].cap) nt = true; }
        compare(sets[i], ref[i]); compare(sets[j], ref[j]);
    }
    s.note(log); if(nt) s.nontrivial();
}
// equal values with far outliers between them: rounding must not make the rolling variance negative
PBT(rolling_outliers, 1, "an outlier entered and left the window")
{
    std::size_t W = 2 + s.draw(6); double base = (gen::real01(s) + 0.01) * std::ldexp(1.0, (int)s.draw(30)), out = (1 + gen::real01(s)) * std::ldexp(1.0, (int)s.draw(30)); unsigned rate = 2 + (unsigned)s.draw(12);
    A a(tag::rolling_window::window_size = W); Window<double> r(W); s.note("window " + show(W) + " base " + show(base) + " outlier scale " + show(out)); std::string log; std::size_t since = 1000000; bool nt = false;
    while(s.more(60))
    {
        bool o = s.draw(rate) == 1; double x = base + (o ? out * (double)(1 + s.draw(1000)) : 0); a(x); r.add(x); log += o ? show(x) + " " : ". ";
        if(o) since = 0; else if(++since == W) nt = true;
        CHECK_MSG(rolling_variance(a) >= 0, "negative rolling variance " + show(rolling_variance(a)));
        CHECK_NEAR(rolling_variance(a), r.var(), gen::tol<double>(r.total, 16 * r.mx * r.mx), "rolling variance");
        CHECK_NEAR(rolling_mean(a), r.mean(), gen::tol<double>(r.total, r.mx), "rolling mean");
    }
    s.note(log); if(nt) s.nontrivial();
}
// a long stream through a small window
PBT(rolling_long, 0.02, "5000 samples or more")
{
    std::size_t W = window_size(s), n = s.draw(40000); std::uint64_t r = s.draw(1000000); A a(tag::rolling_window::window_size = W); Window<double> ref(W); s.note("window " + show(W) + " n " + show(n) + " seed " + show(r));
    for(std::size_t i = 0; i < n; ++i) { double x = (double)((long long)(splitmix(r) % 2001) - 1000); a(x); ref.add(x); if(i % 4001 == 0) compare(a, ref); }
    compare(a, ref); if(n >= 5000) s.nontrivial();
}
