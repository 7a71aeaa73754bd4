#include "../gen.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <deque>
using namespace boost::accumulators; using namespace pbt; using gen::LD;

template<class T> struct Window {
    std::size_t cap, total = 0; std::deque<T> d; LD mx = 0;
    explicit Window(std::size_t c) : cap(c) {}
    void add(T x) { d.push_back(x); if(d.size() > cap) d.pop_front(); ++total; mx = std::max(mx, fabsl((LD)x)); }
    LD sum() const { LD r = 0; for(T x : d) r += x; return r; }
    LD mean() const { return sum() / d.size(); }
    LD moment(int k) const { LD r = 0; for(T x : d) r += gen::powi(x, k); return r / d.size(); }
    LD var() const { if(d.size() < 2) return 0; LD m = mean(), r = 0; for(T x : d) r += (x - m) * (x - m); return r / (d.size() - 1); }
};
inline std::size_t window_size(Src &s) { switch(s.draw(64) == 63 ? 4 : s.draw(4)) { case 0: return 1 + s.draw(3); case 1: return 1 + s.draw(8); case 2: return 2 + s.draw(20); case 3: return 1 + s.draw(80); default: return 60 + s.draw(400); } }
template<class R, class D> void same_range(R const &r, D const &d, char const *what)
{
    std::size_t i = 0; CHECK_EQ((std::size_t)std::distance(r.begin(), r.end()), d.size(), std::string("length of ") + what);
    for(auto const &x : r) { CHECK_EQ(x, d[i], std::string(what) + " element " + show(i)); ++i; }
}
