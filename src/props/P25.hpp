#include "../kits.hpp"
using namespace kits; using namespace pbt;
// The same stream in two units: samples times 2^k, variates times 2^m, weights times 2^j (all exact). Every result is
// then the same number times 2^(k dx + m dc + j dw), with the degrees of that result.
struct Deg { int dx, dc, dw; };
inline bool has(std::string const &n, char const *t) { return n.find(t) != std::string::npos; }
inline std::vector<Deg> degrees(std::string const &n)
{
    typedef std::vector<Deg> R; std::size_t m = n.find("moment<");
    if(m != std::string::npos) { int d = n[m + 7] - '0'; return R{{d, 0, 0}, {0, d, 0}, {0, 0, d}}; }
    if(has(n, "covariance")) return R{{1, 1, 0}, {2, 0, 0}};
    if(has(n, "variance")) return R{{2, 0, 0}};
    if(has(n, "count") || has(n, "skewness") || has(n, "kurtosis")) return R{{0, 0, 0}};
    if(has(n, "sum_of_weights") || has(n, "mean_of_weights") || has(n, "tail_weights")) return R{{0, 0, 1}};
    if(has(n, "weighted_sum_of_variates")) return R{{0, 1, 1}};
    if(has(n, "relative_")) return R{{-1, 1, 0}, {-1, 0, 1}, {-1, 0, 0}};
    if(has(n, "tail_variate")) return R{{0, 1, 0}, {0, 0, 1}};
    if(has(n, "of_variates")) return R{{0, 1, 0}, {1, 0, 0}};
    if(has(n, "weighted_sum")) return R{{1, 0, 1}};
    return R{{1, 0, 0}};
}
// sets whose sample is a vector of the three numbers, or pairs of them
template<class K> struct mixed : std::false_type {};
// sets in which weights have an absolute meaning (a weight of one is one step of a marker)
template<class K> struct weight_units : std::true_type {};
template<class K> struct exponents { static int x() { return 60; } static int c() { return 60; } static int w() { return 60; } };
template<class K> void units(Src &s)
{
    Par p = params(s); Feed f = feed(s, needs_distinct<K>::value); int k = (int)s.signedint(exponents<K>::x()), m = (int)s.signedint(exponents<K>::c()), j = weight_units<K>::value ? (int)s.signedint(exponents<K>::w()) : 0; unsigned mean = 3 + (unsigned)s.draw(40);
    Par p2 = p; p2.thr = std::ldexp(p.thr, k); typename K::set a(K::make(p)), b(K::make(p2)); std::vector<In> in; std::size_t n = 0, ready = std::max<std::size_t>(K::ready(p), 1), compared = 0; double M = 0, C = 0, W = 0; gen::LD sum = 0, sq = 0; std::size_t next = ready;
    while(n < 300)
    {
        bool go = s.more(mean + (unsigned)ready);
        if(n && (!go || n == next))
        {
            next += 1 + s.draw(20 + n); if(n < ready) return; s.note(showp(p) + " samples times 2^" + show(k) + " variates times 2^" + show(m) + " weights times 2^" + show(j) + " inputs " + showi(in)); double q = qprob(s); gen::LD mu = sum / n; bool spread = sq / n - mu * mu > 1e-4L * M * M;
            // a fit can leave the range of double in either unit: nothing to compare then
            double hu = 0, hv = 0; for(std::size_t i = 0; i < K::list().size(); ++i) { for(double y : ask<K>(a, i, q)) if(!std::isnan(y)) hu = std::max(hu, std::fabs(y)); for(double y : ask<K>(b, i, q)) if(!std::isnan(y)) hv = std::max(hv, std::fabs(y)); }
            if(std::max(hu, hv) > 1e150 && std::min(hu, hv) > 1e80) { s.label("out of range"); if(!go) break; hu = -1; }
            if(hu >= 0) for(std::size_t i = 0; i < K::list().size(); ++i)
            {
                std::string name = K::list()[i].first; if((has(name, "skewness") || has(name, "kurtosis")) && !spread) continue; Out u = ask<K>(a, i, q), v = ask<K>(b, i, q); std::vector<Deg> d = degrees(name); if(mixed<K>::value) { d.push_back(Deg{1, 0, 0}); d.push_back(Deg{0, 1, 0}); d.push_back(Deg{0, 0, 1}); }
                bool scalar = u.size() == 1; if(!scalar) d.push_back(Deg{0, 0, 0}); CHECK_EQ(u.size(), v.size(), std::string(K::name()) + ": " + name + ": number of values");
                for(std::size_t e = 0; e < u.size(); ++e)
                {
                    if(std::isnan(u[e]) || std::isinf(u[e])) { CHECK_MSG(std::isnan(u[e]) ? std::isnan(v[e]) : u[e] == v[e], std::string(K::name()) + ": " + name + " is " + show(u[e]) + " in one unit and " + show(v[e]) + " in the other"); continue; }
                    bool ok = false; for(Deg const &g : d) { double want = std::ldexp(u[e], k * g.dx + m * g.dc + j * g.dw), slack = g.dx < 0 ? 0 : std::ldexp(64 * (n + 16) * 2.3e-16 * std::pow(M, g.dx) * std::pow(C, g.dc) * std::pow(W, g.dw), k * g.dx + m * g.dc + j * g.dw); if(g.dx + g.dc + g.dw == 0) slack = 0; ok |= std::fabs(v[e] - want) <= 1e-9 * std::fabs(want) + slack; }
                    CHECK_MSG(ok, std::string(K::name()) + ": value " + show(e) + " of " + name + " q=" + show(q) + " is " + show(u[e]) + " in one unit and " + show(v[e]) + " (not the same times a power of the factors) in the other"); ++compared;
                }
            }
        }
        if(!go) break;
        In i = f.next(s), t; t.x = std::ldexp(i.x, k); t.c = std::ldexp(i.c, m); t.w = std::ldexp(i.w, j); in.push_back(i); M = std::max(M, std::fabs(i.x)); C = std::max(C, std::fabs(i.c)); W = std::max(W, i.w * n); W = std::max(W, i.w * (n + 1)); sum += i.x; sq += (gen::LD)i.x * i.x; K::push(a, i); K::push(b, t); ++n;
    }
    if(compared && n > 2 && (k || j)) s.nontrivial(); if(k > 20) s.label("large samples"); if(k < -20) s.label("small samples"); if(compared) s.label("compared");
}
#define UNITS(K) PBT(units_##K, 1, "three or more samples, results compared, samples or weights in another unit") { units<kits::K>(s); }
