#include "../gen.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
using namespace boost::accumulators; using namespace pbt; using gen::LD;

// reference: the textbook definitions, two passes, long double
template<class T> struct Ref {
    std::vector<T> v; LD sum = 0, mx = 0; T mn{}, mxv{};
    void add(T x) { if(v.empty()) { mn = mxv = x; } else { if(x < mn) mn = x; if(mxv < x) mxv = x; } v.push_back(x); sum += x; mx = std::max(mx, fabsl((LD)x)); }
    std::size_t n() const { return v.size(); }
    LD mean() const { return sum / n(); }
    LD moment(int k) const { LD r = 0; for(T x : v) r += gen::powi(x, k); return r / n(); }
    LD central(int k) const { LD m = mean(), r = 0; for(T x : v) r += gen::powi(x - m, k); return r / n(); }
};

// standardised moments: allowance for numerator and denominator; false if ill conditioned
template<class T> bool shape_tol(std::size_t n, LD mx, LD var, int k, LD value, LD &t)
{
    LD dv = gen::tol<T>(n, 4 * mx * mx);
    if(!(dv < 0.01L * var)) return false;
    LD den = k == 3 ? var * sqrtl(var) : var * var;
    t = gen::tol<T>(n, 16 * gen::powi(mx, k)) / den + 2 * (k / 2.0L) * (dv / var) * (fabsl(value) + 3);
    return true;
}
