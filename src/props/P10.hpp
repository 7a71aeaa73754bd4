#include "../psq.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
using namespace boost::accumulators; using namespace pbt; using gen::LD;
inline double qprob(Src &s, bool &dy)
{
    switch(s.draw(5))
    {
    case 0: dy = true; return (double)s.integer(1, 3) / 4;
    case 1: dy = true; return (double)s.integer(1, 63) / 64;
    case 2: dy = false; return (double)s.integer(1, 99) / 100;
    case 3: dy = true; return s.flip() ? 1.0 / 256 : 255.0 / 256;
    default: dy = false; return 0.01 + 0.98 * gen::real01(s);
    }
}
inline unsigned psq_len(Src &s) { static unsigned const m[] = { 20, 6, 60, 200 }; return m[s.draw(4)]; }
inline void psq_labels(Src &s, psq::Model const &m, std::size_t cmp, std::size_t n)
{
    if(m.parabolic) s.label("parabolic step"); if(m.lin) s.label("linear step"); if(m.newmin) s.label("new minimum"); if(m.newmax) s.label("new maximum"); if(m.tie) s.label("sample equal to a marker");
    if(cmp == n) s.label("compared to the end"); if(m.parabolic + m.lin && cmp > 10) s.nontrivial();
}
// ascending grid of probabilities, distinct
inline std::vector<double> grid(Src &s, bool &dy, std::size_t lo = 1)
{
    std::vector<double> p; std::size_t k = s.draw(32) == 31 ? 9 + s.draw(20) : lo + s.draw(s.flip() ? 3 : 8); int kind = (int)s.draw(3); dy = kind == 0;
    if(kind == 0) { std::vector<int> all; for(int i = 1; i < 32; ++i) all.push_back(i); while(p.size() < k) { std::size_t j = s.draw(all.size()); p.push_back(all[j] / 32.0); all.erase(all.begin() + j); } }
    else if(kind == 1) { std::vector<int> all; for(int i = 1; i < 100; ++i) all.push_back(i); while(p.size() < k) { std::size_t j = s.draw(all.size()); p.push_back(all[j] / 100.0); all.erase(all.begin() + j); } }
    else { double x = 0; for(std::size_t i = 0; i < k; ++i) { x += (0.05 + gen::real01(s)) / (1.1 * k + 0.1); p.push_back(x); } }
    std::sort(p.begin(), p.end()); return p;
}
template<class A, class Tag> std::vector<double> heights_of(A const &a, Tag const &x) { auto r = x(a); return std::vector<double>(r.begin(), r.end()); }
