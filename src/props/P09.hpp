#include "../psq.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
using namespace boost::accumulators; using namespace pbt; using gen::LD;
inline double qprob(Src &s, bool &dy)
{
    switch(s.draw(5))
    {
    case 0: dy = true; return (double)s.integer(1, 3) / 4;
    case 1: dy = true; return (double)s.integer(1, 63) / 64;
    case 2: dy = false; return (double)s.integer(1, 99) / 100;
    case 3: dy = true; return s.flip() ? 1.0 / 256 : 255.0 / 256;
    default: dy = false; return 0.01 + 0.98 * gen::real01(s);
    }
}
inline unsigned psq_len(Src &s) { static unsigned const m[] = { 20, 6, 60, 200 }; return m[s.draw(4)]; }
inline void psq_labels(Src &s, psq::Model const &m, std::size_t cmp, std::size_t n)
{
    if(m.parabolic) s.label("parabolic step"); if(m.lin) s.label("linear step"); if(m.newmin) s.label("new minimum"); if(m.newmax) s.label("new maximum"); if(m.tie) s.label("sample equal to a marker");
    if(cmp == n) s.label("compared to the end"); if(m.parabolic + m.lin && cmp > 10) s.nontrivial();
}
