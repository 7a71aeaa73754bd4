#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "../gen.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators; using namespace pbt; using gen::LD;
typedef std::vector<double> Vec;

inline LD wmean(Vec const &v, Vec const &w) { LD a = 0, b = 0; for(std::size_t i = 0; i < v.size(); ++i) { a += (LD)v[i] * w[i]; b += w[i]; } return a / b; }
inline LD wcov(Vec const &x, Vec const &y, Vec const &w)
{
    LD mx = wmean(x, w), my = wmean(y, w), a = 0, b = 0;
    for(std::size_t i = 0; i < x.size(); ++i) { a += w[i] * (x[i] - mx) * (y[i] - my); b += w[i]; }
    return a / b;
}
inline Vec col(Src &s, std::size_t n) { gen::Profile p = gen::profile(s, false, 10); Vec v; for(std::size_t i = 0; i < n; ++i) v.push_back(gen::value(s, p, false, 0)); gen::reorder(s, p, v); return v; }
inline bool varies(Vec const &v) { for(double x : v) if(x != v[0]) return true; return false; }
inline std::size_t len(Src &s) { static int const m[] = { 2, 6, 20, 80 }; int q = m[s.draw(4)]; std::size_t n = 1; while(s.more(q) && n < 500) ++n; return n; }
