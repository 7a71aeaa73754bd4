// Every documented way to write the same thing gives the same result: how samples are passed, how results are asked for,
// how the features are listed and which name of a statistic is used.
#include "../gen.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/weighted_sum_kahan.hpp>
#include <boost/mpl/vector.hpp>
#include <memory>
using namespace boost::accumulators; using namespace pbt; using gen::LD;
namespace mpl = boost::mpl;
inline bool same(double a, double b) { return a == b || (a != a && b != b); }
inline void agree(Src &s, std::string const &log, char const *what, char const *form, double got, double want) { if(!same(got, want)) { s.note(log); fail(std::string(what) + " asked for as " + form + " is " + show(got) + ", as the named function " + show(want)); } }
#define NAMES(F, ...) { double w = (double)F(a); agree(s, log, #F, "extract_result", (double)extract_result<__VA_ARGS__>(a), w); agree(s, log, #F, "extractor object", (double)extractor<__VA_ARGS__>()(a), w); agree(s, log, #F, "extract:: function", (double)extract::F(a), w); agree(s, log, #F, "an argument pack", (double)F((accumulator = a)), w); agree(s, log, #F, "a reference to const", (double)F(static_cast<set const &>(a)), w); agree(s, log, #F, "with an unrelated argument", (double)extractor<__VA_ARGS__>()(a, covariate2 = 3.5), w); agree(s, log, #F, "a copy", (double)F(set(a)), w); }
inline double val(Src &s, int k) { return k == 0 ? (double)s.signedint(6) : k == 1 ? (double)s.signedint(5000) / 16 : 2 * gen::real01(s) - 1; }
