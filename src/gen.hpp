// Generators and reference helpers shared by the properties.
#ifndef GEN_HPP
#define GEN_HPP
#include "pbt.hpp"
#include <vector>
#include <numeric>
#include <cmath>
#include <limits>

namespace gen {
using pbt::Src;
typedef long double LD;

template<class T> struct eps_of { static LD value() { return std::numeric_limits<double>::epsilon(); } };
template<> struct eps_of<float> { static LD value() { return std::numeric_limits<float>::epsilon(); } };
template<> struct eps_of<long double> { static LD value() { return std::numeric_limits<double>::epsilon(); } };

// rounding allowance for a computation over n samples whose terms are bounded by scale
template<class T> inline LD tol(std::size_t n, LD scale) { return 8 * (n + 16.0L) * eps_of<T>::value() * scale + 1e-300L; }

// length profile: mean length of a stream
inline unsigned mean_len(Src &s)
{
    static unsigned const m[] = { 6, 2, 20, 60, 6, 20, 250 };
    unsigned const k = (unsigned)s.draw(512);
    return k >= 508 ? 2500 : m[k % 7];
}

// ------------------------------------------------------------------ sample streams
// One numeric profile per stream, so that streams of equal values, sorted streams, all negative
// streams, streams with a large offset ... all turn up.
struct Profile { int kind; double off; double scale; int order; int emax; };

// emax bounds the binary exponents (float streams with high moments need a small one)
inline Profile profile(Src &s, bool integral, int emax = 20)
{
    Profile p;
    p.kind = (int)s.draw(integral ? 4 : 9);
    p.order = (int)s.draw(6); // 0..2 as drawn, 3 ascending, 4 descending, 5 runs
    p.off = 0; p.scale = 1; p.emax = emax;
    if(!integral && p.kind == 7) { p.off = (double)s.signedint(1000); }
    if(!integral && p.kind == 8) { p.scale = std::ldexp(1.0, (int)s.signedint(emax)); }
    return p;
}
inline double real01(Src &s) { return (double)s.draw(1ULL << 40) / (double)(1ULL << 40); }

inline double value(Src &s, Profile const &p, bool integral, long long imax)
{
    if(integral)
        switch(p.kind)
        {
        case 0: return (double)s.signedint(std::min(4LL, imax));
        case 1: return (double)s.signedint(imax);
        case 2: return -(double)s.integer(1, imax);       // all negative
        default: return (double)s.integer(1, imax);       // all positive
        }
    switch(p.kind)
    {
    case 0: return (double)s.signedint(4);
    case 1: return (double)s.signedint(1000);
    case 2: return -(double)s.integer(1, 4096) / 16;
    case 3: return (double)s.integer(1, 4096) / 16;
    case 4: return (double)s.signedint(4096) / 64;
    case 5: return 2 * real01(s) - 1;
    case 6: { double m = real01(s) + 0.5; int e = (int)s.signedint(std::min(10, p.emax)); return std::ldexp(s.flip() ? -m : m, e); }
    case 7: return p.off + real01(s);
    default: return p.scale * (double)s.signedint(64);
    }
}
// kinds 0..4 and 8 are dyadic with few bits: sums of a few thousand of them are exact in double
inline bool dyadic(Profile const &p, bool integral) { return integral || p.kind <= 4 || p.kind == 8; }

template<class T> void reorder(Src &s, Profile const &p, std::vector<T> &v)
{
    (void)s;
    if(p.order == 3) std::sort(v.begin(), v.end());
    else if(p.order == 4) { std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); }
    else if(p.order == 5) for(std::size_t i = 1; i < v.size(); ++i) if(i % 3) v[i] = v[i - 1];
}

template<class T> struct Stream { std::vector<T> v; Profile p; bool exact; };

template<class T> Stream<T> stream(Src &s, long long imax = 1000, std::size_t minlen = 0, std::size_t maxlen = 4000 /* sums of the dyadic kinds stay exact, in float too */, unsigned mean = 0)
{
    Stream<T> r; bool const in = std::is_integral<T>::value;
    r.p = profile(s, in, std::is_same<T, float>::value ? 3 : 20); r.exact = dyadic(r.p, in);
    unsigned m = mean ? mean : mean_len(s);
    while(r.v.size() < maxlen && (r.v.size() < minlen || s.more(m)))
        { double const x = value(s, r.p, in, imax); r.v.push_back((T)(in && std::is_unsigned<T>::value ? std::fabs(x) : x)); }
    reorder(s, r.p, r.v);
    return r;
}

template<class C> LD maxabs(C const &c) { LD m = 0; for(auto const &x : c) m = std::max(m, fabsl((LD)x)); return m; }

inline LD powi(LD x, int n) { LD r = 1; for(int i = 0; i < n; ++i) r *= x; return r; }

} // namespace gen
#endif
// ------------------------------------------------------------------ long streams (a function of a few choices)
namespace gen {
struct Long { std::vector<double> v; std::vector<double> w; std::string note; };
// more than 65536 samples; weights are multiples of 1/4; kind 0 uniform, 1 rising, 2 falling, 3 few extremes late, 4 whole numbers
inline Long long_stream(Src &s)
{
    Long r; std::size_t const n = 66000 + s.draw(40000); int const kind = (int)s.draw(5); std::uint64_t const seed = s.draw(1ULL << 32); std::uint64_t st = seed; double const scale = std::ldexp(1.0, (int)s.signedint(5)); bool const unit = s.flip();
    r.note = "long stream: n " + pbt::show(n) + " kind " + pbt::show(kind) + " seed " + pbt::show(seed) + " scale " + pbt::show(scale) + (unit ? " unit weights" : " weights");
    for(std::size_t i = 0; i < n; ++i)
    {
        double u = (double)(pbt::splitmix(st) >> 11) / 9007199254740992.0; double x = 2 * u - 1;
        if(kind == 1) x += 4.0 * i / n; if(kind == 2) x -= 4.0 * i / n; if(kind == 3 && i > n - 50) x *= 10; if(kind == 4) x = std::floor(x * 1000);
        r.v.push_back(x * scale); r.w.push_back(unit ? 1 : (double)(1 + pbt::splitmix(st) % 16) / 4);
    }
    return r;
}
} // namespace gen
// ------------------------------------------------------------------ weights
namespace gen {
struct WProfile { int kind; };
inline WProfile wprofile(Src &s, bool integral) { WProfile p; p.kind = (int)s.draw(integral ? 3 : 6); return p; }
inline double weight_value(Src &s, WProfile const &p, bool integral, bool zero_ok)
{
    if(zero_ok && s.draw(12) == 11) return 0;
    if(integral) switch(p.kind) { case 0: return 1; case 1: return (double)s.integer(1, 3); default: return (double)s.integer(1, 9); }
    switch(p.kind)
    {
    case 0: return 1;
    case 1: return (double)s.integer(1, 4);
    case 2: return (double)s.integer(1, 64) / 16;
    case 3: return real01(s) * 0.999 + 0.001;
    case 4: return std::ldexp((double)s.integer(1, 8), (int)s.signedint(7));
    default: return (double)s.integer(1, 1000);
    }
}
inline bool wdyadic(WProfile const &p, bool integral) { return integral || p.kind != 3; }
template<class W> std::vector<W> weights(Src &s, std::size_t n, WProfile const &p, bool zeros = true)
{
    std::vector<W> w; bool const in = std::is_integral<W>::value;
    for(std::size_t i = 0; i < n; ++i) w.push_back((W)weight_value(s, p, in, zeros && i > 0));
    return w;
}
} // namespace gen
