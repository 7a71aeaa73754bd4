#include "P08.hpp"
// Generalized Pareto fit by the method of moments (Hosking & Wallis), long double; right tail of mirrored data.
struct Fit { LD u, b, xi, q, tm; };
inline Fit fit(LD mu, LD s2, LD u, LD P, LD oneminus)
{
    Fit f; LD t = (mu - u) * (mu - u) / s2, bh = 0.5L * (mu - u) * (1 + t); f.xi = 0.5L * (1 - t); f.b = bh * powl(1 - P, f.xi); f.u = u - f.b * (powl(1 - P, -f.xi) - 1) / f.xi;
    f.q = f.u + f.b / f.xi * (powl(oneminus, -f.xi) - 1); f.tm = f.q - f.b / (f.xi - 1) * powl(oneminus, -f.xi); return f;
}
// Moments of the items beyond the threshold (already mirrored), expected fit, and by how much rounding of the moments may move it.
// false: the fit is ill conditioned (all excesses equal, shape parameter near 0, ...) and nothing is compared.
inline bool expect(std::vector<Item> const &e, LD u, LD P, LD om, Fit &f, Fit &t)
{
    LD w = 0, m = 0, ss = 0, mx = fabsl(u); for(auto const &i : e) { w += i.w; m += i.w * i.x; ss += i.w * (LD)i.x * i.x; mx = std::max(mx, fabsl((LD)i.x)); } if(!(w > 0)) return false; m /= w; ss /= w; LD s2 = 0; for(auto const &i : e) s2 += i.w * (i.x - m) * (i.x - m); s2 /= w;
    LD ee = 8e-16L * (e.size() + 8), dm = ee * mx, ds = 3 * ee * mx * mx; if(!(s2 > 1e5L * ds) || !(m - u > 1e5L * dm) || !(P < 1)) return false; f = fit(m, s2, u, P, om); if(fabsl(f.xi) < 1e-3L || f.xi < -20) return false; t = Fit{0, 0, 0, 0, 0};
    for(int i = -1; i < 2; i += 2) for(int j = -1; j < 2; j += 2) { Fit g = fit(m + i * dm, s2 + j * ds, u, P, om); t.u = std::max(t.u, fabsl(g.u - f.u)); t.b = std::max(t.b, fabsl(g.b - f.b)); t.xi = std::max(t.xi, fabsl(g.xi - f.xi)); t.q = std::max(t.q, fabsl(g.q - f.q)); t.tm = std::max(t.tm, fabsl(g.tm - f.tm)); }
    LD pw = 1 + powl(1 - P, -f.xi) + powl(om, -f.xi) + powl(1 - P, f.xi), r = 64e-16L * (1 + fabsl(f.xi)) / fabsl(f.xi) * (1 + fabsl(logl(om)) + fabsl(logl(1 - P))); t.u = 2 * t.u + r * (fabsl(u) + f.b * pw); t.b = 2 * t.b + r * f.b * pw; t.xi = 2 * t.xi + r; t.q = 2 * t.q + r * (fabsl(u) + f.b * pw); t.tm = 2 * t.tm + r * (fabsl(u) + f.b * pw * 3);
    if(!std::isfinite((double)(f.u + f.b + f.q + f.tm + t.tm + t.u)) || t.q > 1e-4L * (mx + fabsl(f.q)) || t.tm > 1e-4L * (mx + fabsl(f.tm)) || t.u > 1e-4L * (mx + fabsl(f.u))) return false; return true;
}
// sample values: an ordinary stream, or a heavy / light tailed one
template<class T> std::vector<T> pot_stream(Src &s)
{
    if(std::is_integral<T>::value || s.chance(1, 3)) return gen::stream<T>(s, s.flip() ? 1000 : s.flip() ? 100000 : 1000000000, 2, 400).v;
    std::vector<T> v; unsigned mean = gen::mean_len(s) + 10; int k = (int)s.draw(3); double off = (double)s.signedint(20); while(v.size() < 3 || (v.size() < 400 && s.more(mean))) { double u = gen::real01(s) * 0.9999; v.push_back((T)(off + (s.flip() ? 1 : -1) * (k == 0 ? -std::log(1 - u) : k == 1 ? std::pow(1 - u, -0.4) : 5 * u))); } return v;
}
inline double qp(Src &s) { switch(s.draw(4)) { case 0: return (double)s.integer(1, 99) / 100; case 1: return 0.99; case 2: return 0.01; default: return 0.001 + 0.998 * gen::real01(s); } }
template<class R, class Q, class M> void pot_compare(R const &r, Q q, M m, Fit const &f, Fit const &t, int sign, std::string const &at)
{
    CHECK_NEAR((LD)r.template get<0>(), f.u, t.u, "location" + at); CHECK_NEAR((LD)r.template get<1>(), f.b, t.b, "scale" + at); CHECK_NEAR((LD)r.template get<2>(), f.xi, t.xi, "shape" + at); CHECK_NEAR((LD)q, sign * f.q, t.q, "quantile" + at); CHECK_NEAR((LD)m, sign * f.tm, t.tm, "tail mean" + at);
}
