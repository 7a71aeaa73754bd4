// Reference model of the P^2 family (Jain & Chlamtac; Raatikainen for several quantiles; weighted form:
// positions are sums of weights). Written from the papers, long double, one routine for all variants.
// The algorithm branches on comparisons; when a comparison is closer than rounding can decide, "sure"
// becomes false and the caller stops comparing with the model (range invariants still apply).
#ifndef PSQ_HPP
#define PSQ_HPP
#include "gen.hpp"
namespace psq {
using gen::LD;
struct Model
{
    std::vector<LD> frac, h, pos; std::vector<char> raw /* the height is exactly representable: a sample, or computed without rounding */; std::vector<std::pair<LD, LD> > init; LD W; std::size_t n; bool sure, wexact; LD mx;
    unsigned long parabolic, lin, newmin, newmax, tie, touch;
    Model(std::vector<LD> const &f, bool weights_and_fracs_exact) : frac(f), W(0), n(0), sure(true), wexact(weights_and_fracs_exact), mx(0), parabolic(0), lin(0), newmin(0), newmax(0), tie(0), touch(0) {}
    std::size_t m() const { return frac.size(); }
    bool ready() const { return n >= m(); }
    LD hscale() const { return mx + 1e-300L; }
    void cmp_h(LD a, LD b, bool exact_pair) { if(!exact_pair && fabsl(a - b) < 1e-8L * hscale()) sure = false; }
    // heights that a double holds with bits to spare: sums, small multiples and halvings of them are exact in any order of evaluation
    static bool few(LD x) { LD y = x * 65536; return fabsl(x) < 1048576 && y == floorl(y); }
    static bool pow2(LD x) { for(LD y = 1; y <= 128; y *= 2) if(x == y) return true; return false; }
    void cmp_p(LD a, LD b) { if(!wexact && fabsl(a - b) < 1e-9L * (W + 1)) sure = false; }
    void add(LD x, LD w)
    {
        ++n; W += w; mx = std::max(mx, fabsl(x)); std::size_t const M = m();
        if(n <= M)
        {
            init.push_back(std::make_pair(x, w));
            if(n == M)
            {
                std::stable_sort(init.begin(), init.end(), [](auto const &a, auto const &b) { return a.first < b.first; });
                for(std::size_t i = 0; i + 1 < M; ++i) if(init[i].first == init[i + 1].first && init[i].second != init[i + 1].second) sure = false; // which of two equal samples comes first is not specified
                LD c = 0; for(auto &p : init) { c += p.second; h.push_back(p.first); pos.push_back(c); raw.push_back(1); }
            }
            return;
        }
        std::size_t cell = 1;
        if(x < h[0]) { h[0] = x; pos[0] = w; cell = 1; ++newmin; }
        else if(x >= h[M - 1]) { h[M - 1] = x; cell = M - 1; ++newmax; }
        else { cell = 0; while(!(x < h[cell])) ++cell; for(std::size_t i = 0; i < M; ++i) { cmp_h(x, h[i], raw[i]); if(x == h[i]) ++tie; } }
        for(std::size_t i = cell; i < M; ++i) pos[i] += w;
        for(std::size_t i = 1; i + 1 < M; ++i)
        {
            LD want = pos[0] + (W - pos[0]) * frac[i], d = want - pos[i], dp = pos[i + 1] - pos[i], dm = pos[i - 1] - pos[i];
            cmp_p(d, 1); cmp_p(d, -1); if(fabsl(d) >= 0.999L) { cmp_p(dp, 1); cmp_p(dm, -1); }
            int sg = d >= 1 && dp > 1 ? 1 : d <= -1 && dm < -1 ? -1 : 0; if(!sg) continue;
            LD hp = (h[i + 1] - h[i]) / dp, hm = (h[i - 1] - h[i]) / dm;
            LD nh = h[i] + sg / (dp - dm) * ((sg - dm) * hp + (dp - sg) * hm);
            bool flat = raw[i - 1] && raw[i] && raw[i + 1] && h[i - 1] == h[i] && h[i] == h[i + 1];
            bool exact = raw[i - 1] && raw[i] && raw[i + 1] && few(h[i - 1]) && few(h[i]) && few(h[i + 1]) && dp == -dm && pow2(dp); if(exact && (nh == h[i - 1] || nh == h[i + 1])) ++touch;
            cmp_h(nh, h[i - 1], flat || exact); cmp_h(nh, h[i + 1], flat || exact);
            if(h[i - 1] < nh && nh < h[i + 1]) { h[i] = nh; ++parabolic; if(!exact || !few(nh)) raw[i] = 0; }
            else
            {
                bool still = flat || (sg > 0 ? (hp == 0 && raw[i] && raw[i + 1]) : (hm == 0 && raw[i] && raw[i - 1])), ok = sg > 0 ? raw[i] && raw[i + 1] && few(h[i]) && few(h[i + 1]) && pow2(dp) : raw[i] && raw[i - 1] && few(h[i]) && few(h[i - 1]) && pow2(-dm);
                h[i] += sg > 0 ? hp : -hm; ++lin; if(!still && !(ok && few(h[i]))) raw[i] = 0;
            }
            pos[i] += sg;
        }
    }
};
inline std::vector<LD> frac_quantile(LD p) { return { 0, p / 2, p, (1 + p) / 2, 1 }; }
inline std::vector<LD> frac_extended(std::vector<double> const &p)
{
    std::vector<LD> f(2 * p.size() + 3); f[0] = 0; f.back() = 1; for(std::size_t i = 0; i < p.size(); ++i) f[2 * i + 2] = p[i];
    for(std::size_t i = 1; i < f.size(); i += 2) f[i] = (f[i - 1] + f[i + 1]) / 2; return f;
}
inline std::vector<LD> frac_cells(std::size_t b) { std::vector<LD> f; for(std::size_t i = 0; i <= b; ++i) f.push_back((LD)i / b); return f; }
inline bool pow2(std::size_t b) { return (b & (b - 1)) == 0; }
// samples for accuracy checks: n independent draws from one distribution, a function of one choice
inline double u01(std::uint64_t &st) { return (pbt::splitmix(st) >> 11) * (1.0 / 9007199254740992.0); }
struct Dist { int kind; double a, b; double q(double p) const { switch(kind) { case 0: return a + b * p; case 1: return a + b * p * p; case 2: return a - b * std::log(1 - p); default: return a + b * (p < 0.5 ? std::sqrt(p / 2) : 1 - std::sqrt((1 - p) / 2)); } } };
inline Dist dist(pbt::Src &s) { Dist d; d.kind = (int)s.draw(4); d.a = (double)s.signedint(100); d.b = std::ldexp(1.0, (int)s.signedint(6)); return d; }
// one case in three: small whole numbers and weights one or two, where predicted heights meet their neighbours exactly
template<class T, class W> void tidy(pbt::Src &s, std::vector<T> &v, std::vector<W> &w, bool weighted)
{
    if(!s.chance(1, 3)) return; int const r = 6 + (int)s.draw(40); bool const two = weighted && s.flip();
    for(T &x : v) x = (T)(long long)std::fmod(std::floor((double)x), (double)r); if(weighted) for(std::size_t i = 0; i < w.size(); ++i) w[i] = (W)(two && s.flip() ? 2 : 1);
}
template<class T> void tidy(pbt::Src &s, std::vector<T> &v) { std::vector<T> none; tidy(s, v, none, false); }
} // namespace psq
#endif
