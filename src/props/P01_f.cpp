// long streams: counters and running values over up to 200000 samples; unsigned samples; extreme magnitudes
#include "P01.hpp"
PBT(long_stream, 0.02, "more than 70000 samples")
{
    std::uint64_t seed = s.draw(1000000), st = seed; std::size_t n = 1 + s.draw(200000); int m = (int)s.integer(1, 1000);
    s.note("seed " + show(seed) + " n " + show(n) + " range " + show(m));
    accumulator_set<double, stats<tag::count, tag::sum, tag::min, tag::max, tag::mean, tag::immediate_mean, tag::variance, tag::moment<2> > > acc;
    LD sm = 0, sq = 0; double mn = 1e9, mx = -1e9; std::size_t check = 1 + (n / 5);
    for(std::size_t i = 1; i <= n; ++i)
    {
        double x = (double)((long long)(splitmix(st) % (2 * m + 1)) - m); acc(x); sm += x; sq += (LD)x * x; mn = std::min(mn, x); mx = std::max(mx, x);
        if(i % check && i != n) continue;
        CHECK_EQ(count(acc), i, "count"); CHECK_EQ((LD)sum(acc), sm, "sum"); CHECK_EQ((boost::accumulators::min)(acc), mn, "min"); CHECK_EQ((boost::accumulators::max)(acc), mx, "max");
        CHECK_NEAR(extract_result<tag::mean>(acc), sm / i, 1e-9L * m, "mean"); CHECK_NEAR(extract_result<tag::immediate_mean>(acc), sm / i, 1e-9L * m, "immediate mean");
        CHECK_NEAR(variance(acc), sq / i - (sm / i) * (sm / i), 1e-8L * m * m, "variance"); CHECK_NEAR(moment<2>(acc), sq / i, 1e-9L * m * m, "moment<2>");
    }
    if(n > 70000) s.nontrivial();
}
template<class T> void extremes(Src &s)
{
    // min, max, count for any values of the type, extremes included
    std::vector<T> v; accumulator_set<T, stats<tag::min, tag::max, tag::count> > a; T lo = std::numeric_limits<T>::lowest(), hi = (std::numeric_limits<T>::max)();
    unsigned m = gen::mean_len(s); T mn = hi, mx = lo; bool ext = false; unsigned mode = (unsigned)s.draw(3);
    while(v.empty() || s.more(m))
    {
        T x; switch(s.draw(8)) { case 0: x = T(0); break; case 1: x = mode == 1 ? lo : hi; break; case 2: x = mode == 2 ? hi : lo; break; case 3: x = (T)(lo / 2); break; case 4: x = (T)(hi / 2); break;
            case 5: x = std::is_integral<T>::value ? (T)(lo + 1) : (std::numeric_limits<T>::min)(); break; case 6: x = std::is_integral<T>::value ? (T)(hi - 1) : std::numeric_limits<T>::denorm_min(); break; default: x = (T)s.signedint(100); }
        if(x == lo || x == hi) ext = true;
        v.push_back(x); a(x); mn = std::min(mn, x); mx = std::max(mx, x);
        CHECK_EQ((boost::accumulators::min)(a), mn, "min"); CHECK_EQ((boost::accumulators::max)(a), mx, "max");
    }
    CHECK_EQ(count(a), v.size(), "count");
    s.note("samples " + showv(v)); if(ext) s.label("extreme value of the type"); if(v.size() > 1) s.nontrivial();
}
PBT(minmax_int, 1, "two or more samples") { extremes<int>(s); }
PBT(minmax_uint, 0.5, "two or more samples") { extremes<unsigned>(s); }
PBT(minmax_short, 0.5, "two or more samples") { extremes<short>(s); }
PBT(minmax_double, 1, "two or more samples") { extremes<double>(s); }
PBT(minmax_float, 0.5, "two or more samples") { extremes<float>(s); }
