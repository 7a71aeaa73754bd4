// std::vector operands: everything is element by element.
#include "P20.hpp"
template<class A, class B> void vec(Src &s)
{
    using namespace boost::numeric::operators; std::size_t n = s.draw(4) ? s.draw(9) : s.draw(45); std::vector<A> a(n), c(n); std::vector<B> b(n); for(std::size_t i = 0; i < n; ++i) { a[i] = scal<A>(s); b[i] = scal<B>(s); c[i] = scal<A>(s); } B k = scal<B>(s); std::vector<A> const ca = a; std::vector<B> const cb = b; B const ck = k; s.note(showv(a) + " " + showv(b) + " " + show(k));
#define EL(E, WANT) each(#E, E, n, [&](std::size_t i) { return WANT; });
    EL(num::plus(a, b), a[i] + b[i]) EL(num::plus(ca, cb), a[i] + b[i]) EL(num::minus(a, b), a[i] - b[i]) EL(num::multiplies(a, cb), a[i] * b[i]) EL(num::divides(ca, b), a[i] / b[i]) EL(num::multiplies(a, k), a[i] * k) EL(num::multiplies(ck, ca), k * a[i]) EL(num::divides(a, ck), a[i] / k) EL(num::unary_minus(a), -a[i])
    EL(a + b, a[i] + b[i]) EL(a - b, a[i] - b[i]) EL(a * b, a[i] * b[i]) EL(a / b, a[i] / b[i]) EL(a * k, a[i] * k) EL(k * a, k * a[i]) EL(a / k, a[i] / k) EL(-ca, -a[i])
    same_type<decltype(num::multiplies(a, k)), std::vector<decltype(A() * B())> >(); same_type<decltype(num::plus(a, b)), std::vector<decltype(A() + B())> >();
    { std::vector<A> x = a; std::vector<A> &r = num::plus_assign(x, c); EL(x, (A)(a[i] + c[i])) if(&r != &x) fail("plus_assign does not return its left operand"); std::vector<A> y = a; y += c; EL(y, (A)(a[i] + c[i])) }
    { std::vector<A> x = a; num::min_assign(x, b); EL(x, b[i] < a[i] ? (A)b[i] : a[i]) std::vector<A> y = a; num::max_assign(y, cb); EL(y, b[i] > a[i] ? (A)b[i] : a[i]) std::vector<A> z = a; num::min_assign(z, c); EL(z, std::min(a[i], c[i])) num::max_assign(z, a); EL(z, a[i]) }
    if(std::is_integral<A>::value && std::is_integral<B>::value) { EL(num::fdiv(a, k), (double)a[i] / (double)k) EL(num::fdiv(ca, ck), (double)a[i] / (double)k) } else { EL(num::fdiv(a, k), a[i] / k) EL(num::fdiv(ca, ck), a[i] / k) } std::size_t z = 1 + s.draw(9); if(std::is_integral<A>::value) { EL(num::fdiv(a, z), (double)a[i] / (double)z) } else { EL(num::fdiv(a, z), a[i] / z) }
    EL(num::promote<std::vector<double> >(a), (double)a[i]) EL(num::promote<std::vector<double> >(ca), (double)a[i]) { std::vector<A> &r = num::promote<std::vector<A> >(a); if(&r != &a) fail("promote to the same type is not the object"); }
    EL(num::as_min(a), std::numeric_limits<A>::lowest()) EL(num::as_max(a), std::numeric_limits<A>::max()) EL(num::as_zero(a), A(0)) EL(num::as_one(a), A(1))
    std::size_t m = s.draw(5); std::vector<B> d(m); for(auto &x : d) x = scal<B>(s); auto o = num::outer_product(a, d); if(o.size1() != n || o.size2() != m) fail("the outer product is " + show(o.size1()) + " by " + show(o.size2())); for(std::size_t i = 0; i < n; ++i) for(std::size_t j = 0; j < m; ++j) same("outer_product element", o(i, j), a[i] * d[j]);
    EL(num::outer_product(k, a), k * a[i]) EL(num::outer_product(a, k), a[i] * k)
    each("operands after the operations", a, n, [&](std::size_t i) { return ca[i]; }); each("operands after the operations", b, n, [&](std::size_t i) { return cb[i]; });
    if(n >= 2) s.nontrivial();
}
#define VC(N, A, B) PBT(vector_##N, 1, "two or more elements") { vec<A, B>(s); }
VC(ii, int, int) VC(id, int, double) VC(di, double, int) VC(dd, double, double) VC(fd, float, double) VC(df, double, float) VC(ld, long, double) VC(uu, unsigned, unsigned) VC(ud, unsigned, double)
