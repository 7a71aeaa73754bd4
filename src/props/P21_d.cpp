#include "P21.hpp"
typedef std::valarray<double> AD; typedef std::valarray<int> AI;
typedef stats<tag::sum, tag::mean, tag::min, tag::max, tag::moment<2>, tag::moment<3>, tag::lazy_variance, tag::sum_of_weights> F1; typedef stats<tag::immediate_mean, tag::variance, cov1> F2; typedef stats<tag::sum, tag::mean, tag::min, tag::max> F5;
#define C1 CHS(sum(a), m * n * 1000) CHS(mean(a), m * 4) CHS((min)(a), 0) CHS((max)(a), 0) CHS(moment<2>(a), m * m * 4) CHS(moment<3>(a), m * m * m * 4) CHS(variance(a), m * m * 4)
MULTI(wval_double_lazy, AD, F1, double, C1) MULTI(wval_double_imm, AD, F2, double, CHS(mean(a), m * 4) CHS(variance(a), m * m * 16) CHS(covariance(a), m * 160))
MULTI(wval_int, AI, F5, double, CHS(sum(a), m * n * 1000) CHS(mean(a), m * 4) CHS((min)(a), 0) CHS((max)(a), 0))
// complex samples: linear statistics are those of the real and imaginary parts, the others follow their definition
typedef std::complex<double> CD; typedef std::complex<LD> CL;
static bool near(CD a, CL b, LD scale, std::size_t n) { return std::abs(CL(a.real(), a.imag()) - b) <= gen::tol<double>(n, scale) * 4; }
#define CC(E, WANT, SCALE) if(!near(E, WANT, SCALE, n)) { s.note(log); CL w_ = WANT; fail(std::string(#E) + " is (" + show((E).real()) + "," + show((E).imag()) + "), expected (" + show((double)w_.real()) + "," + show((double)w_.imag()) + ")"); }
PBT(complex_samples, 2, "three or more samples")
{
    accumulator_set<CD, stats<tag::sum, tag::mean, tag::moment<2>, tag::lazy_variance> > a; accumulator_set<CD, stats<tag::immediate_mean, tag::variance> > b; std::size_t win = 1 + s.draw(5); accumulator_set<CD, stats<tag::rolling_sum, tag::lazy_rolling_mean, tag::sum_kahan> > r(tag::rolling_window::window_size = win); accumulator_set<CD, stats<tag::weighted_mean, tag::weighted_sum, tag::weighted_moment<2> >, double> w; accumulator_set<CD, stats<tag::immediate_weighted_mean, tag::weighted_variance>, double> wi;
    std::vector<CL> xs; CL sx, sxx, wx, wxx; LD sw = 0, m = 1; std::size_t n = 0; std::string log; int k = (int)s.draw(3); gen::WProfile wp = gen::wprofile(s, false);
    while(n < 100 && s.more(12))
    {
        CD x(elem<double>(s, k), elem<double>(s, k)); double wt = gen::weight_value(s, wp, false, false); CL X(x.real(), x.imag()); xs.push_back(X); ++n; m = std::max(m, std::abs(X)); sx += X; sxx += X * X; wx += X * (LD)wt; wxx += X * X * (LD)wt; sw += wt; log += " (" + show(x.real()) + "," + show(x.imag()) + ")*" + show(wt);
        a(x); b(x); r(x); w(x, weight = wt); wi(x, weight = wt); CL mu = sx / (LD)n, wmu = wx / sw, rs; std::size_t c = std::min(win, n); for(std::size_t i = n - c; i < n; ++i) rs += xs[i];
        CC(sum(a), sx, m * n) CC(mean(a), mu, m) CC(moment<2>(a), sxx / (LD)n, m * m) CC(variance(a), sxx / (LD)n - mu * mu, m * m) CC(mean(b), mu, m) CC(variance(b), sxx / (LD)n - mu * mu, m * m * 8) CC(rolling_sum(r), rs, m * n) CC(rolling_mean(r), rs / (LD)c, m * n) CC(sum_kahan(r), sx, m * n)
        CC(weighted_mean(w), wmu, m * 4) CC(weighted_sum(w), wx, m * sw) CC(weighted_moment<2>(w), wxx / sw, m * m * 4) CC(mean(wi), wmu, m * 4) CC(variance(wi), wxx / sw - wmu * wmu, m * m * 32)
    }
    s.note(log); if(n >= 3) s.nontrivial();
}
