// Known finding: the accumulators of a set are not constructed in the order of their dependencies
#include "../gen.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
using namespace boost::accumulators; using namespace pbt;
static int built;
template<class S, class W> struct born : accumulator_base { typedef int result_type; int at; template<class A> born(A const &) : at(built++) {} int result(dont_care) const { return at; } };
struct base_feature : depends_on<> { typedef born<boost::mpl::_1, boost::mpl::true_> impl; };
struct user_feature : depends_on<base_feature> { typedef born<boost::mpl::_1, boost::mpl::false_> impl; };
PBT(known_construction, 0, "probe of a known finding")
{
    built = 0; s.draw(2); accumulator_set<double, stats<user_feature> > a;
    CHECK_MSG(extract_result<base_feature>(a) < extract_result<user_feature>(a), "an accumulator is constructed before the one it depends on");
}
