#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "../gen.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators; using namespace pbt; using gen::LD;
typedef std::vector<double> Vec;
template<class LR> struct dir;
template<> struct dir<right> { template<class T> static bool before(T a, T b) { return a > b; } static double level(double p) { return 1. - p; } };
template<> struct dir<left> { template<class T> static bool before(T a, T b) { return a < b; } static double level(double p) { return p; } };

// probabilities: dyadic (every product with a count is exact), percent values, near 0 and 1, and (fine) just
// beside a short fraction, where the rank differs from that of the fraction although the product is nearly the same
inline double prob(Src &s, bool &dy, bool fine = true)
{
    switch(s.draw(fine ? 6 : 5))
    {
    case 5: { dy = true; double q = s.flip() ? (double)s.integer(1, 7) / 8 : (double)s.integer(1, 15) / 16, e = std::ldexp(1.0, -20 - 8 * (int)s.draw(3)); return s.flip() ? q + e : q - e; }
    case 0: dy = true; return (double)s.integer(1, 7) / 8;
    case 1: dy = true; return (double)s.integer(1, 63) / 64;
    case 2: dy = false; return (double)s.integer(1, 99) / 100;
    case 3: dy = true; return s.flip() ? 1.0 / 1024 : 1023.0 / 1024;
    default: dy = false; return 0.001 + 0.998 * gen::real01(s);
    }
}
inline std::size_t cache_sz(Src &s) { switch(s.draw(48) == 47 ? 3 : s.draw(3)) { case 3: return 200 + s.draw(500); case 0: return 1 + s.draw(3); case 1: return 1 + s.draw(20); default: return 1 + s.draw(200); } }
// rank: ceil(count * level); undecided when the product is within rounding distance of an integer
inline bool rank_of(std::size_t cnt, double level, bool dy, std::size_t &n)
{
    LD x = (LD)cnt * level, f = floorl(x + 0.5L); n = (std::size_t)ceill(x);
    return dy || fabsl(x - f) > 1e-9L * (cnt + 1);
}
