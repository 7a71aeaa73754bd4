#include "../gen.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
using namespace boost::accumulators; using namespace pbt; using gen::LD;

template<class T, class W> struct WRef {
    std::vector<T> v; std::vector<W> w; LD sum = 0, sw = 0, mx = 0, asum = 0;
    void add(T x, W y) { v.push_back(x); w.push_back(y); sum += (LD)x * y; asum += fabsl((LD)x) * y; sw += y; mx = std::max(mx, fabsl((LD)x)); }
    std::size_t n() const { return v.size(); }
    LD mean() const { return sum / sw; }
    LD moment(int k) const { LD r = 0; for(std::size_t i = 0; i < n(); ++i) r += (LD)w[i] * gen::powi(v[i], k); return r / sw; }
    LD central(int k) const { LD m = mean(), r = 0; for(std::size_t i = 0; i < n(); ++i) r += (LD)w[i] * gen::powi(v[i] - m, k); return r / sw; }
};
template<class T> bool wshape_tol(std::size_t n, LD mx, LD var, int k, LD value, LD &t)
{
    LD dv = gen::tol<T>(n, 4 * mx * mx);
    if(!(dv < 0.01L * var)) return false;
    LD den = k == 3 ? var * sqrtl(var) : var * var;
    t = gen::tol<T>(n, 16 * gen::powi(mx, k)) / den + 2 * (k / 2.0L) * (dv / var) * (fabsl(value) + 3);
    return true;
}
template<class T, class W> struct prec { typedef double type; };
template<> struct prec<float, float> { typedef float type; };
template<> struct prec<float, int> { typedef float type; };
