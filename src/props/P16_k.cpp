// Known finding: archives do not record which statistics have been dropped
#include "../gen.hpp"
#include <sstream>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
using namespace boost::accumulators; using namespace pbt;
PBT(known_dropped, 0, "probe of a known finding")
{
    typedef accumulator_set<int, stats<droppable<tag::sum>, tag::count> > set; set a, b; int x = 1 + (int)s.draw(9);
    a(x); a.drop<tag::sum>(); std::stringstream io; { boost::archive::text_oarchive o(io); a.serialize(o, 0); } { boost::archive::text_iarchive i(io); b.serialize(i, 0); }
    a(5); b(5); CHECK_EQ(sum(b), sum(a), "a dropped sum after reloading");
}
