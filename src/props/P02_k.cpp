#include "P02.hpp"
// weighted moments of every order; integers of any size as long as the weighted sums fit
template<int N> void one_moment(std::vector<double> const &v, std::vector<double> const &w, WRef<double, double> const &r)
{
    accumulator_set<double, stats<tag::weighted_moment<N> >, double> a; accumulator_set<double, stats<tag::moment<N> >, double> b; for(std::size_t i = 0; i < v.size(); ++i) { a(v[i], weight = w[i]); b(weight = w[i], sample = v[i]); }
    LD t = gen::tol<double>(r.n() + 4 * N, gen::powi(r.mx, N)); CHECK_NEAR(weighted_moment<N>(a), r.moment(N), t, "weighted_moment<" + show(N) + ">"); CHECK_NEAR(moment<N>(b), r.moment(N), t, "moment<" + show(N) + "> in a weighted set");
}
PBT(w_moments, 1, "weights differ and samples differ")
{
    auto st = gen::stream<double>(s, 0, 1, 200); auto wp = gen::wprofile(s, false); auto w = gen::weights<double>(s, st.v.size(), wp); WRef<double, double> r; bool dw = false, dx = false; std::vector<double> const &v = st.v; for(std::size_t i = 0; i < v.size(); ++i) { r.add(v[i], w[i]); dw |= w[i] != w[0]; dx |= v[i] != v[0]; }
    int k = (int)s.draw(9); s.note("order " + show(k + 5) + " samples " + showv(v) + " weights " + showv(w));
    switch(k) { case 0: one_moment<5>(v, w, r); break; case 1: one_moment<6>(v, w, r); break; case 2: one_moment<7>(v, w, r); break; case 3: one_moment<8>(v, w, r); break; case 4: one_moment<9>(v, w, r); break; case 5: one_moment<10>(v, w, r); break; case 6: one_moment<11>(v, w, r); break; case 7: one_moment<12>(v, w, r); break; default: one_moment<13>(v, w, r); }
    if(dw && dx) s.nontrivial();
}
template<class T, class W> void wlarge(Src &s)
{
    typedef decltype(T() * W()) P; unsigned m = gen::mean_len(s); int const bits = std::min(62, std::numeric_limits<T>::digits); int shift = (int)s.draw(bits - 1), wm = 1 << s.draw(12); LD sum = 0, sw = 0, mx = 0, top = (LD)(std::numeric_limits<P>::max)(); std::size_t n = 0; std::vector<T> v; std::vector<W> w;
    accumulator_set<T, stats<tag::weighted_sum, tag::weighted_mean, tag::sum_of_weights, tag::mean_of_weights, tag::immediate_mean_of_weights>, W> a; accumulator_set<T, stats<tag::immediate_weighted_mean>, W> im;
    while(n < 400 && s.more(m))
    {
        T x = (T)(s.draw(1ULL << 62) >> (62 - bits) >> (bits - 1 - shift)); if(std::is_signed<T>::value && s.flip()) x = (T)-x; W y = (W)s.integer(1, wm); if(std::is_integral<P>::value && (fabsl((LD)x * y) > top || fabsl(sum + (LD)x * y) > top || (!std::is_signed<P>::value && sum + (LD)x * y < 0))) x = T(0);
        v.push_back(x); w.push_back(y); a(x, weight = y); im(x, weight = y); sum += (LD)x * y; sw += y; mx = std::max(mx, fabsl((LD)x)); ++n; if(n > 20 && n % 11) continue;
        if(std::is_integral<P>::value) CHECK_EQ((LD)weighted_sum(a), sum, "weighted sum"); CHECK_EQ((LD)sum_of_weights(a), sw, "sum of weights"); LD t = gen::tol<double>(n, mx);
        CHECK_NEAR(weighted_sum(a), sum, t * sw, "weighted sum"); CHECK_NEAR(weighted_mean(a), sum / sw, t, "weighted mean"); CHECK_NEAR(weighted_mean(im), sum / sw, t, "immediate weighted mean"); CHECK_NEAR(extract_result<tag::mean_of_weights>(a), sw / n, gen::tol<double>(n, sw / n), "mean of weights"); CHECK_NEAR(extract_result<tag::immediate_mean_of_weights>(a), sw / n, gen::tol<double>(n, wm), "immediate mean of weights");
    }
    s.note("samples " + showv(v) + " weights " + showv(w)); if(mx > 65535) s.label("beyond 16 bits"); if(mx > 4294967295.0L) s.label("beyond 32 bits"); if(n > 1 && wm > 1) s.nontrivial();
}
PBT(w_large_int, 1, "two or more samples, weights differ") { wlarge<int, int>(s); }
PBT(w_large_longlong, 1, "two or more samples, weights differ") { wlarge<long long, int>(s); }
PBT(w_large_double_weight, 0.5, "two or more samples, weights differ") { wlarge<int, double>(s); }
