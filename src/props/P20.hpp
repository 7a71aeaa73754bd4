#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_VALARRAY_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_COMPLEX_SUPPORT
#include "../gen.hpp"
#include <complex>
#include <valarray>
#include <boost/accumulators/numeric/functional.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/covariance.hpp>
namespace num = boost::numeric; namespace fun = boost::numeric::functional; using namespace pbt;
template<class T> T scal(Src &s) { if(std::is_unsigned<T>::value) return (T)s.integer(1, s.flip() ? 40 : 60000); if(std::is_integral<T>::value) { T v = (T)s.signedint(s.flip() ? 40 : 30000); return v ? v : (T)3; } double d = s.flip() ? (double)s.signedint(40) : (double)s.signedint(4000) / 64; return (T)(d ? d : 1.5); }
template<class A, class B> bool eq(A const &a, B const &b) { return a == b || (a != a && b != b); }
inline std::string sh(double d) { return show(d); }
template<class T> std::string sh(std::complex<T> const &c) { return "(" + show(c.real()) + "," + show(c.imag()) + ")"; }
template<class A, class B> void same(char const *what, A const &got, B const &want) { if(!eq(got, want)) fail(std::string(what) + " is " + sh(got) + ", expected " + sh(want)); }
template<class A, class B> void same_type() { static_assert(std::is_same<A, B>::value, "result type"); }
template<class V, class W> void each(char const *what, V const &got, std::size_t n, W const &want) { if(got.size() != n) fail(std::string(what) + " has " + show(got.size()) + " elements, expected " + show(n)); for(std::size_t i = 0; i < n; ++i) if(!eq(got[i], want(i))) fail(std::string(what) + "[" + show(i) + "] is " + sh(got[i]) + ", expected " + sh(want(i))); }
