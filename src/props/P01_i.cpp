#include "P01.hpp"
// integers of any size as long as their sums fit the type: sums exact, means correct to rounding
template<class T> void large(Src &s)
{
    std::vector<T> v; unsigned m = gen::mean_len(s); int const bits = std::min(62, std::numeric_limits<T>::digits); int shift = (int)s.draw(bits - 1); bool const neg = std::is_signed<T>::value; LD sum = 0, mx = 0; T mn{}, mxv{};
    accumulator_set<T, stats<tag::count, tag::sum, tag::mean, tag::immediate_mean, tag::min, tag::max> > a; accumulator_set<T, stats<tag::mean> > lz; accumulator_set<T, stats<tag::immediate_mean> > im;
    LD const top = (LD)(std::numeric_limits<T>::max)();
    while(v.size() < 600 && s.more(m))
    {
        T x = (T)(s.draw(1ULL << 62) >> (62 - bits) >> (bits - 1 - shift)); if(neg && s.flip()) x = (T)-x; if(!(fabsl(sum + x) <= top) || sum + x < (neg ? -top : 0)) { x = T(0); } // would overflow
        v.push_back(x); a(x); lz(x); im(x); sum += x; mx = std::max(mx, fabsl((LD)x)); if(v.size() == 1) mn = mxv = x; mn = std::min(mn, x); mxv = std::max(mxv, x); std::size_t n = v.size();
        if(n > 20 && n % 11) continue;
        CHECK_EQ(count(a), n, "count"); CHECK_EQ((LD)boost::accumulators::sum(a), sum, "sum"); CHECK_EQ((boost::accumulators::min)(a), mn, "min"); CHECK_EQ((boost::accumulators::max)(a), mxv, "max");
        LD t = gen::tol<double>(n, mx); CHECK_NEAR(extract_result<tag::mean>(a), sum / n, t, "mean"); CHECK_NEAR(extract_result<tag::immediate_mean>(a), sum / n, t, "immediate mean"); CHECK_NEAR(mean(lz), sum / n, t, "mean alone"); CHECK_NEAR(mean(im), sum / n, t, "immediate mean alone");
    }
    s.note("samples " + showv(v)); if(mx > 65535) s.label("beyond 16 bits"); if(mx > 4294967295.0L) s.label("beyond 32 bits"); if(v.size() > 1 && mn != mxv) s.nontrivial();
}
PBT(large_int, 1, "two or more samples, not all equal") { large<int>(s); }
PBT(large_unsigned, 1, "two or more samples, not all equal") { large<unsigned>(s); }
PBT(large_longlong, 1, "two or more samples, not all equal") { large<long long>(s); }
PBT(large_short, 0.5, "two or more samples, not all equal") { large<short>(s); }
// moments of every order
template<int N> void one_moment(std::vector<double> const &v, Ref<double> const &r, std::vector<double> const &w)
{
    accumulator_set<double, stats<tag::moment<N> > > a; for(double x : v) a(x); CHECK_NEAR(moment<N>(a), r.moment(N), gen::tol<double>(r.n() + 4 * N, gen::powi(r.mx, N)), "moment<" + show(N) + ">");
    accumulator_set<int, stats<tag::moment<N> > > b; LD e = 0; for(double x : v) { int k = (int)x % 3; b(k); e += gen::powi(k, N); } CHECK_NEAR(moment<N>(b), e / v.size(), gen::tol<double>(v.size(), gen::powi(2, N)), "moment<" + show(N) + "> of integers");
}
PBT(moments, 1, "two or more samples, not all equal")
{
    auto st = gen::stream<double>(s, 0, 1, 200); Ref<double> r; for(double x : st.v) r.add(x); int k = (int)s.draw(12); s.note("order " + show(k + 5) + " samples " + showv(st.v)); std::vector<double> const &v = st.v;
    switch(k) { case 0: one_moment<5>(v, r, v); break; case 1: one_moment<6>(v, r, v); break; case 2: one_moment<7>(v, r, v); break; case 3: one_moment<8>(v, r, v); break; case 4: one_moment<9>(v, r, v); break; case 5: one_moment<10>(v, r, v); break;
        case 6: one_moment<11>(v, r, v); break; case 7: one_moment<12>(v, r, v); break; case 8: one_moment<13>(v, r, v); break; case 9: one_moment<14>(v, r, v); break; case 10: one_moment<15>(v, r, v); break; default: one_moment<16>(v, r, v); }
    if(r.n() > 1 && r.mn != r.mxv) s.nontrivial();
}
