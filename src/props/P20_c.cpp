// std::valarray operands, and user-defined types that choose their own meaning of an operation.
#include "P20.hpp"
template<class A, class B> void val(Src &s)
{
    using namespace boost::numeric::operators; std::size_t n = s.draw(4) ? s.draw(9) : s.draw(45); std::valarray<A> a(n), c(n); std::valarray<B> b(n); for(std::size_t i = 0; i < n; ++i) { a[i] = scal<A>(s); b[i] = scal<B>(s); c[i] = scal<A>(s); } B k = scal<B>(s); std::valarray<A> const ca = a; std::valarray<B> const cb = b; B const ck = k; { std::vector<A> t(n); std::vector<B> u(n); for(std::size_t i = 0; i < n; ++i) { t[i] = a[i]; u[i] = b[i]; } s.note(showv(t) + " " + showv(u) + " " + show(k)); }
#define EL(E, WANT) each(#E, E, n, [&](std::size_t i) { return WANT; });
    EL(num::plus(a, b), ca[i] + cb[i]) EL(num::plus(ca, cb), ca[i] + cb[i]) EL(num::plus(a, c), (decltype(A() + A()))(ca[i] + c[i])) EL(num::minus(a, c), ca[i] - c[i]) EL(num::multiplies(a, c), ca[i] * c[i]) EL(num::divides(ca, c), ca[i] / c[i]) EL(num::multiplies(a, k), ca[i] * k) EL(num::divides(a, ck), ca[i] / k)
    { A ak = scal<A>(s); EL(num::multiplies(a, ak), (A)(ca[i] * ak)) EL(num::multiplies(ak, a), (A)(ak * ca[i])) EL(num::divides(a, ak), (A)(ca[i] / ak)) EL(num::minus(a, ak), (A)(ca[i] - ak)) EL(num::plus(a, ak), (A)(ca[i] + ak)) EL(num::plus(ak, ca), (A)(ak + ca[i])) EL(num::minus(ak, a), (A)(ak - ca[i])) EL(num::divides(ak, ca), (A)(ak / ca[i])) }
    EL(num::plus(a + c, c), (A)(ca[i] + c[i] + c[i])) EL(num::minus(c, a - c), (A)(c[i] - (ca[i] - c[i]))) EL(num::promote<std::valarray<A> >(a + c), (A)(ca[i] + c[i])) EL(num::unary_minus(a), (A)-ca[i]) // operands that are expressions
    { std::valarray<A> x = a; num::min_assign(x, c); EL(x, std::min(ca[i], c[i])) std::valarray<A> y = a; num::max_assign(y, c); EL(y, std::max(ca[i], c[i])) std::valarray<A> z = a; num::plus_assign(z, c); EL(z, (A)(ca[i] + c[i])) }
    std::size_t z = 1 + s.draw(9); if(std::is_integral<A>::value) { EL(num::fdiv(a, z), (double)ca[i] / (double)z) EL(num::fdiv(ca, z), (double)ca[i] / (double)z) } else { EL(num::fdiv(a, z), ca[i] / z) } if(std::is_integral<A>::value && std::is_integral<B>::value) { EL(num::fdiv(a, k), (double)ca[i] / (double)k) } else { EL(num::fdiv(a, k), ca[i] / k) }
    EL(num::promote<std::valarray<double> >(a), (double)ca[i]) EL(num::promote<std::valarray<double> >(ca), (double)ca[i]) { std::valarray<A> &r = num::promote<std::valarray<A> >(a); if(&r != &a) fail("promote to the same type is not the object"); }
    { std::valarray<bool> e(n); bool all = true; for(std::size_t i = 0; i < n; ++i) { e[i] = ca[i] < c[i] || s.flip(); all = all && e[i]; } same("promote to bool", num::promote<bool>(e), all); std::valarray<bool> const ce = e; same("promote to bool", num::promote<bool>(ce), all); }
    EL(num::as_min(a), std::numeric_limits<A>::lowest()) EL(num::as_max(a), std::numeric_limits<A>::max()) EL(num::as_zero(a), A(0)) EL(num::as_one(a), A(1))
    each("operands after the operations", a, n, [&](std::size_t i) { return ca[i]; }); if(n >= 2) s.nontrivial();
}
#define VL(N, A, B) PBT(valarray_##N, 1, "two or more elements") { val<A, B>(s); }
template<class A> void val_mod(Src &s)
{
    std::size_t n = s.draw(4) ? s.draw(9) : s.draw(45); std::valarray<A> a(n), c(n); for(std::size_t i = 0; i < n; ++i) { a[i] = scal<A>(s); c[i] = scal<A>(s); } A k = scal<A>(s); std::valarray<A> const ca = a; { std::vector<A> t(n); for(std::size_t i = 0; i < n; ++i) t[i] = a[i]; s.note(showv(t) + " " + show(k)); }
    EL(num::modulus(a, c), (A)(ca[i] % c[i])) EL(num::modulus(a, k), (A)(ca[i] % k)) EL(num::modulus(k, ca), (A)(k % ca[i])) EL(num::divides(a, c), (A)(ca[i] / c[i])) EL(num::fdiv(a, k), (double)ca[i] / (double)k) if(n >= 2) s.nontrivial();
}
PBT(valarray_modulus, 1, "two or more elements") { if(s.flip()) val_mod<int>(s); else val_mod<long>(s); }
VL(id, int, double) VL(di, double, int) VL(fd, float, double) VL(ld, long, double)
// a type with its own meaning of division by a count (the documented way to adapt a type): here "rational" keeps num/den
struct Rat { long n, d; Rat(long a = 0, long b = 1) : n(a), d(b) {} Rat &operator +=(Rat const &o) { n = n * o.d + o.n * d; d *= o.d; return *this; } Rat operator -() const { return Rat(-n, d); } };
inline Rat operator +(Rat a, Rat const &b) { return a += b; } inline bool operator <(Rat const &a, Rat const &b) { return a.n * b.d < b.n * a.d; } inline bool operator >(Rat const &a, Rat const &b) { return b < a; }
namespace boost { namespace numeric { namespace functional {
struct RatTag {}; template<> struct tag<Rat> { typedef RatTag type; };
template<typename Left, typename Right> struct fdiv<Left, Right, RatTag, void> { typedef Rat result_type; Rat operator ()(Left &l, Right &r) const { return Rat(l.n, l.d * (long)r); } };
template<typename T> struct as_min<T, RatTag> { typedef Rat result_type; Rat operator ()(T &) const { return Rat(-1000000); } };
template<typename T> struct as_max<T, RatTag> { typedef Rat result_type; Rat operator ()(T &) const { return Rat(1000000); } };
}}}
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/min.hpp>
#include <boost/accumulators/statistics/max.hpp>
PBT(user_type, 2, "three or more samples")
{
    using namespace boost::accumulators; Rat a(s.signedint(9), s.integer(1, 9)); int k = (int)s.integer(1, 9); Rat const ca = a; int const ck = k; Rat q = num::fdiv(a, k), q2 = num::fdiv(ca, ck); if(q.n != a.n || q.d != a.d * k || q2.n != q.n || q2.d != q.d) fail("fdiv does not use the meaning chosen for the type");
    accumulator_set<Rat, stats<tag::sum, tag::mean, tag::min, tag::max> > acc; long num_ = 0; std::size_t n = 0; long mn = 1000000, mx = -1000000; std::string log; while(n < 40 && s.more(6)) { long x = s.signedint(50); acc(Rat(x)); num_ += x; mn = std::min(mn, x); mx = std::max(mx, x); ++n; log += " " + show(x); }
    s.note(log); if(sum(acc).n != num_ || sum(acc).d != 1) fail("sum is " + show(sum(acc).n) + "/" + show(sum(acc).d)); if(n) { Rat m = mean(acc); if(m.n != num_ || m.d != (long)n) fail("mean is " + show(m.n) + "/" + show(m.d) + ", expected " + show(num_) + "/" + show(n)); if((min)(acc).n != mn || (max)(acc).n != mx) fail("min or max"); }
    if(n >= 3) s.nontrivial();
}
