#include "../gen.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
using namespace boost::accumulators; using namespace pbt; using gen::LD;
typedef std::vector<std::pair<LD, LD> > Hist;
template<class R> Hist hist_of(R const &r) { Hist c; for(auto const &p : r) c.push_back(std::make_pair((LD)p.first, (LD)p.second)); return c; }
inline std::string showh(Hist const &c) { std::string r = "["; for(auto const &p : c) r += "(" + show((double)p.first) + "," + show((double)p.second) + ")"; return r + "]"; }
