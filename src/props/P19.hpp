#include "../gen.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <memory>
using namespace boost::accumulators; using namespace pbt; using gen::LD;
namespace my { BOOST_PARAMETER_KEYWORD(tag, src) BOOST_PARAMETER_KEYWORD(tag, src2) BOOST_PARAMETER_KEYWORD(tag, ref_a) BOOST_PARAMETER_KEYWORD(tag, ref_b) BOOST_PARAMETER_KEYWORD(tag, val_a) BOOST_PARAMETER_KEYWORD(tag, val_b) }
inline void near(char const *what, LD got, LD want, LD scale, std::size_t n) { if(got != got && want != want) return; if(!(fabsl(got - want) <= gen::tol<double>(n, scale))) fail(std::string(what) + " is " + show(got) + ", expected " + show(want)); }
inline double val(Src &s, int k) { return k == 0 ? (double)s.signedint(9) : k == 1 ? (double)s.signedint(1000) / 8 : 2 * gen::real01(s) - 1; }
template<class L> LD tot(L const &l) { LD t = 0; for(auto x : l) t += x; return t; }
template<class L> LD mag(L const &l) { LD t = 1; for(auto x : l) t += fabsl((LD)x); return t; }
