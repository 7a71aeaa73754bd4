#include "P03.hpp"
#include <boost/accumulators/accumulators.hpp>
// samples and variates of different arithmetic types
template<class X> struct col_of { static Vec make(Src &s, std::size_t n) { Vec v; for(std::size_t i = 0; i < n; ++i) v.push_back(std::is_unsigned<X>::value ? (double)s.integer(0, 60) : (double)s.signedint(60)); return v; } };
template<> struct col_of<double> { static Vec make(Src &s, std::size_t n) { return col(s, n); } };
template<> struct col_of<float> { static Vec make(Src &s, std::size_t n) { Vec v; for(std::size_t i = 0; i < n; ++i) v.push_back((double)s.signedint(400) / 16); return v; } };
template<class X, class Y> void mixed(Src &s, LD eps)
{
    std::size_t n = len(s); Vec x = col_of<X>::make(s, n), y = col_of<Y>::make(s, n), o(n, 1.0); bool wt = s.flip(); auto wp = gen::wprofile(s, false); Vec w = wt ? gen::weights<double>(s, n, wp) : o; s.note("x " + showv(x) + " y " + showv(y) + (wt ? " w " + showv(w) : ""));
    accumulator_set<X, stats<tag::covariance<Y, tag::covariate1>, tag::mean_of_variates<Y, tag::covariate1>, tag::sum_of_variates<Y, tag::covariate1> > > a; accumulator_set<X, stats<tag::immediate_mean_of_variates<Y, tag::covariate1> > > b;
    accumulator_set<X, stats<tag::weighted_covariance<Y, tag::covariate1>, tag::weighted_mean_of_variates<Y, tag::covariate1>, tag::weighted_sum_of_variates<Y, tag::covariate1> >, double> wa; accumulator_set<X, stats<tag::immediate_weighted_mean_of_variates<Y, tag::covariate1> >, double> wb;
    for(std::size_t i = 0; i < n; ++i)
    {
        X u = (X)x[i]; Y v = (Y)y[i]; a(u, covariate1 = v); b(u, covariate1 = v); wa(u, weight = w[i], covariate1 = v); wb(u, covariate1 = v, weight = w[i]); std::size_t k = i + 1; if(k > 12 && k % 13 && k != n) continue;
        Vec X1(x.begin(), x.begin() + k), Y1(y.begin(), y.begin() + k), W1(w.begin(), w.begin() + k), O1(k, 1.0); LD mx = gen::maxabs(X1), my = gen::maxabs(Y1), f = eps / 2.3e-16L, sw = 0; for(double q : W1) sw += q;
        CHECK_NEAR(covariance(a), wcov(X1, Y1, O1), f * gen::tol<double>(k, 8 * mx * my), "covariance"); CHECK_NEAR((extract_result<tag::mean_of_variates<Y, tag::covariate1> >(a)), wmean(Y1, O1), f * gen::tol<double>(k, my), "mean of variates"); CHECK_NEAR((extract_result<tag::sum_of_variates<Y, tag::covariate1> >(a)), wmean(Y1, O1) * k, f * gen::tol<double>(k, my * k), "sum of variates"); CHECK_NEAR((extract_result<tag::immediate_mean_of_variates<Y, tag::covariate1> >(b)), wmean(Y1, O1), f * gen::tol<double>(k, my), "immediate mean of variates");
        CHECK_NEAR(weighted_covariance(wa), wcov(X1, Y1, W1), f * gen::tol<double>(k, 8 * mx * my), "weighted covariance"); CHECK_NEAR((extract_result<tag::weighted_mean_of_variates<Y, tag::covariate1> >(wa)), wmean(Y1, W1), f * gen::tol<double>(k, my), "weighted mean of variates"); CHECK_NEAR((extract_result<tag::weighted_sum_of_variates<Y, tag::covariate1> >(wa)), wmean(Y1, W1) * sw, f * gen::tol<double>(k, my * sw), "weighted sum of variates"); CHECK_NEAR((extract_result<tag::immediate_weighted_mean_of_variates<Y, tag::covariate1> >(wb)), wmean(Y1, W1), f * gen::tol<double>(k, my), "immediate weighted mean of variates");
    }
    if(n >= 2 && varies(x) && varies(y)) s.nontrivial(); if(wt) s.label("weighted");
}
#define MIX(N, X, Y, E) PBT(mixed_##N, 0.5, "two or more samples; sample and variate vary") { mixed<X, Y>(s, E); }
#if defined(PART2)
MIX(double_float, double, float, 1.2e-7L) MIX(float_double, float, double, 1.2e-7L) MIX(unsigned_double, unsigned, double, 2.3e-16L) MIX(int_unsigned, int, unsigned, 2.3e-16L)
#else
MIX(int_double, int, double, 2.3e-16L) MIX(double_int, double, int, 2.3e-16L) MIX(double_unsigned, double, unsigned, 2.3e-16L) MIX(unsigned_unsigned, unsigned, unsigned, 2.3e-16L)
#endif
