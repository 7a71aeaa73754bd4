// the bound of P04 for sums built with relaxed floating-point rules (P27_fast*.cpp)
#include "../gen.hpp"
#include <algorithm>
using namespace pbt; typedef __float128 Q;
#define DECL(N) namespace N { void sums(float const *, float const *, float const *, std::size_t, std::size_t, float *); void sums(double const *, double const *, double const *, std::size_t, std::size_t, double *); }
DECL(fast1) DECL(fast2) DECL(fast3) DECL(fast4)
inline Q qabs(Q x) { return x < 0 ? -x : x; }
template<class T> std::vector<T> terms(Src &s, std::size_t n, char const *what, bool positive)
{
    int kind = (int)s.draw(5); std::uint64_t r = s.draw(1ULL << 32); T base = (T)(gen::real01(s) + 0.1); int big = (int)s.integer(4, std::is_same<T, float>::value ? 28 : 56); std::vector<T> v; s.note(std::string(what) + ": kind " + show(kind) + " base " + show(base) + " big 2^" + show(big) + " seed " + show(r));
    for(std::size_t i = 0; i < n; ++i) { T u = (T)((splitmix(r) >> 11) * (1.0 / 9007199254740992.0)); switch(kind) { case 0: v.push_back(base); break; case 1: v.push_back(i == 0 ? (T)std::ldexp(1.0, big) : base); break; case 2: v.push_back((i + 1) % 64 == 0 ? (T)std::ldexp((double)u, big) : u); break; case 3: v.push_back(u + T(0.5)); break; default: v.push_back((i & 1) && !positive ? -u : u * (T)std::ldexp(1.0, (int)(splitmix(r) % 20))); } }
    return v;
}
template<class T> void relaxed(Src &s)
{
    static int const m[] = { 4, 30, 200, 3000 }; std::size_t n = 1 + s.draw(s.draw(400) == 399 ? 70000 : m[s.draw(4)]), at = s.draw(n + 1); s.note("n " + show(n) + " copied and assigned back before sample " + show(at)); std::vector<T> x = terms<T>(s, n, "samples", false), c = terms<T>(s, n, "variates", false), w = s.flip() ? terms<T>(s, n, "weights", true) : std::vector<T>(n, T(0.1));
    Q sum[5] = {}, abs[5] = {}; Q const e = std::numeric_limits<T>::epsilon(), den = std::numeric_limits<T>::min(); bool lossy = false; T naive = 0;
    for(std::size_t i = 0; i < n; ++i) { Q t[5] = { x[i], c[i], (Q)x[i] * w[i], w[i], (Q)c[i] * w[i] }; for(int k = 0; k < 5; ++k) { sum[k] += t[k]; abs[k] += qabs(t[k]); } volatile T y = naive + x[i]; naive = y; }
    lossy = qabs((Q)naive - sum[0]) > 3 * e * abs[0]; static char const *const names[] = { "sum", "sum of variates", "weighted sum", "sum of weights", "weighted sum of variates" };
    T got[4][5]; fast1::sums(x.data(), c.data(), w.data(), n, at, got[0]); fast2::sums(x.data(), c.data(), w.data(), n, at, got[1]); fast3::sums(x.data(), c.data(), w.data(), n, at, got[2]); fast4::sums(x.data(), c.data(), w.data(), n, at, got[3]);
    for(int b = 0; b < 4; ++b) for(int k = 0; k < 5; ++k) CHECK_MSG(qabs((Q)got[b][k] - sum[k]) <= ((k == 2 || k == 4 ? 4 : 3) * e + 4 * (Q)n * e * e) * abs[k] + den * n, std::string("compensated ") + names[k] + " built with relaxed rules (variant " + show(b) + "): got " + show(got[b][k]) + ", expected " + show((double)sum[k]) + " with terms of magnitude " + show((double)abs[k]));
    if(lossy) { s.label("naive summation misses the bound"); s.nontrivial(); }
}
PBT(relaxed_float, 1, "a naive sum of the same samples misses the bound") { relaxed<float>(s); }
PBT(relaxed_double, 1, "a naive sum of the same samples misses the bound") { relaxed<double>(s); }
