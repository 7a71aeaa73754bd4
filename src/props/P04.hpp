#include "../gen.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/weighted_sum_kahan.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators; using namespace pbt; typedef __float128 Q;
inline Q qabs(Q x) { return x < 0 ? -x : x; }

// |S - sum| <= (2 eps + O(n eps^2)) sum|x|  (Kahan); the factor 3 leaves one more ulp for an equivalent formulation
template<class T> bool kahan_ok(T got, Q exact, Q absum, std::size_t n, int extra)
{
    Q e = std::numeric_limits<T>::epsilon();
    return qabs((Q)got - exact) <= ((3 + extra) * e + 4 * (Q)n * e * e) * absum + (Q)std::numeric_limits<T>::denorm_min();
}
// streams on which naive summation loses: long, same sign, wildly different magnitudes, cancelling
template<class T> std::vector<T> hard(Src &s)
{
    int kind = (int)s.draw(6); std::size_t n; static int const m[] = { 4, 30, 200, 3000 }; n = 1 + s.draw(s.draw(400) == 399 ? 70000 : m[s.draw(4)]); std::uint64_t r = s.draw(1ULL << 32); std::vector<T> v;
    T base = (T)(gen::real01(s) + 0.1); int big = (int)s.integer(4, std::is_same<T, float>::value ? 28 : 56);
    s.note("kind " + show(kind) + " n " + show(n) + " base " + show(base) + " big 2^" + show(big) + " seed " + show(r));
    for(std::size_t i = 0; i < n; ++i)
    {
        T u = (T)((splitmix(r) >> 11) * (1.0 / 9007199254740992.0));
        switch(kind)
        {
        case 0: v.push_back(base); break;                                              // the same value over and over
        case 1: v.push_back(i == 0 ? (T)std::ldexp(1.0, big) : base); break;            // one large value, then small ones
        case 2: v.push_back((i + 1) % 64 == 0 ? (T)std::ldexp((double)u, big) : u); break;
        case 3: v.push_back(u + T(0.5)); break;
        case 4: v.push_back((i & 1) ? -u : u * (T)std::ldexp(1.0, (int)(splitmix(r) % 20))); break;
        default: v.push_back(i == 0 ? (T)std::ldexp(1.0, big) : i + 1 == n ? -(T)std::ldexp(1.0, big) : base * (T)(1 + i % 3)); break; // large, small..., minus large
        }
    }
    return v;
}
