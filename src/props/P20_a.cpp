// Scalars: the function objects are the infix operators; division of integers is not truncated by fdiv.
#include "P20.hpp"
template<class A, class B> void pairwise(Src &s)
{
    A a = scal<A>(s), a2; B b = scal<B>(s); A const ca = a; B const cb = b; s.note(show(a) + " " + show(b));
#define BIN(NAME, OP) same(#NAME, num::NAME(a, b), a OP b); same(#NAME, num::NAME(ca, b), a OP b); same(#NAME, num::NAME(a, cb), a OP b); same(#NAME, num::NAME(ca, cb), a OP b); same(#NAME " object", fun::NAME<A, B>()(a, b), a OP b); same(#NAME " object", fun::NAME<A const, B const>()(ca, cb), a OP b); same_type<decltype(num::NAME(a, b)), decltype(a OP b)>(); same_type<typename fun::NAME<A, B>::result_type, decltype(a OP b)>(); same_type<decltype(num::NAME(ca, cb)), decltype(a OP b)>();
    BIN(plus, +) BIN(minus, -) BIN(multiplies, *) BIN(divides, /) BIN(greater, >) BIN(greater_equal, >=) BIN(less, <) BIN(less_equal, <=) BIN(equal_to, ==) BIN(not_equal_to, !=)
#define ASG(NAME, OP) { A x = a, y = a; A &r = num::NAME(x, b); y OP b; same(#NAME, x, y); if(&r != &x) fail(#NAME " does not return its left operand"); A z = a; num::NAME(z, cb); same(#NAME, z, y); A w = a; fun::NAME<A, B>()(w, b); same(#NAME " object", w, y); }
    ASG(assign, =) ASG(plus_assign, +=) ASG(minus_assign, -=) ASG(multiplies_assign, *=) ASG(divides_assign, /=)
    same("unary_plus", num::unary_plus(a), +a); same("unary_minus", num::unary_minus(a), -a); same("unary_minus", num::unary_minus(ca), -a); same("logical_not", num::logical_not(a), !a);
    double d = (double)a / (double)b; if constexpr(std::is_integral<A>::value && std::is_integral<B>::value) { same("fdiv", num::fdiv(a, b), d); same("fdiv", num::fdiv(ca, cb), d); same("average", num::average(a, b), d); same_type<decltype(num::fdiv(a, b)), typename std::conditional<std::is_integral<A>::value && std::is_integral<B>::value, double, decltype(a / b)>::type>(); } else { same("fdiv", num::fdiv(a, b), a / b); same("fdiv", num::fdiv(ca, cb), a / b); same("average", num::average(a, b), a / b); same_type<decltype(num::fdiv(a, b)), decltype(a / b)>(); }
    { A x = a; num::min_assign(x, cb); A y = b < a ? (A)b : a; same("min_assign", x, y); A z = a; num::max_assign(z, b); y = b > a ? (A)b : a; same("max_assign", z, y); }
    same("promote", num::promote<double>(a), (double)a); same("promote", num::promote<double>(ca), (double)a); A &pr = num::promote<A>(a); if(&pr != &a) fail("promote to the same type is not the object"); A const &pc = num::promote<A>(ca); if(&pc != &ca) fail("promote to the same type is not the object");
    same("as_min", num::as_min(a), std::numeric_limits<A>::lowest()); same("as_max", num::as_max(a), std::numeric_limits<A>::max()); same("as_min", num::as_min(ca), std::numeric_limits<A>::lowest()); same("as_max", num::as_max(ca), std::numeric_limits<A>::max()); same("as_zero", num::as_zero(a), A(0)); same("as_one", num::as_one(ca), A(1)); same("outer_product", num::outer_product(a, cb), a * b);
    same("one", num::one<A>::value, A(1)); same("zero", num::zero<A>::value, A(0)); same("default_", num::default_<A>::value, A());
    s.nontrivial();
}
template<class A, class B> void integral_only(Src &s)
{
    A a = scal<A>(s); B b = scal<B>(s); A const ca = a; B const cb = b; s.note(show(a) + " " + show(b)); BIN(modulus, %) ASG(modulus_assign, %=) same("complement", num::complement(a), ~a); same("complement", num::complement(ca), ~a); s.nontrivial();
}
#define PW(N, A, B) PBT(scalar_##N, 1, "every pair") { pairwise<A, B>(s); }
PW(ii, int, int) PW(id, int, double) PW(di, double, int) PW(dd, double, double) PW(fi, float, int) PW(df, double, float) PW(uu, unsigned, unsigned) PW(dz, double, std::size_t) PW(iz, int, std::size_t) PW(ll, long, short) PW(Ld, long double, double) PW(sd, short, double) PW(iu, int, unsigned) PW(ud, unsigned, double) PW(us, unsigned short, unsigned) PW(LL, long long, long long) PW(Lf, long double, float) PW(du, double, unsigned)
PBT(integers, 2, "every pair") { switch(s.draw(4)) { case 0: integral_only<int, int>(s); break; case 1: integral_only<long, int>(s); break; case 2: integral_only<unsigned, unsigned>(s); break; default: integral_only<short, int>(s); } }
template<class T, class U> void cplx(Src &s)
{   // complex numbers scaled by numbers of another type
    using namespace boost::numeric::operators; std::complex<T> a(scal<T>(s), scal<T>(s)), b(scal<T>(s), scal<T>(s)); U u = scal<U>(s); std::complex<T> const ca = a; U const cu = u; s.note(sh(a) + " " + sh(b) + " " + show(u));
    same("complex * scalar", num::multiplies(a, u), a * (T)u); same("complex * scalar", num::multiplies(ca, cu), a * (T)u); same("complex / scalar", num::divides(a, u), a / (T)u); same("fdiv", num::fdiv(ca, cu), a / (T)u); same("plus", num::plus(a, b), a + b); same("minus", num::minus(a, b), a - b); same("multiplies", num::multiplies(a, b), a * b); same("divides", num::divides(ca, b), a / b); same("unary_minus", num::unary_minus(a), -a);
    { std::complex<T> x = a; num::plus_assign(x, b); same("plus_assign", x, a + b); } same("as_zero", num::as_zero(a), std::complex<T>()); same("infix *", a * u, a * (T)u); same("infix /", a / u, a / (T)u); s.nontrivial();
}
PBT(complex_scalar, 3, "every pair") { switch(s.draw(5)) { case 0: cplx<double, int>(s); break; case 1: cplx<double, std::size_t>(s); break; case 2: cplx<float, int>(s); break; case 3: cplx<double, float>(s); break; default: cplx<float, std::size_t>(s); } }
