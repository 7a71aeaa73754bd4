#include "P03.hpp"
PBT(weighted_scalar, 4, "two or more samples; sample, variate and weights vary")
{
    std::size_t n = len(s); Vec x = col(s, n), y = col(s, n), z = col(s, n); auto wp = gen::wprofile(s, false); Vec w = gen::weights<double>(s, n, wp);
    s.note("x " + showv(x)); s.note("cov1 " + showv(y)); s.note("cov2 " + showv(z)); s.note("w " + showv(w));
    accumulator_set<double, stats<tag::weighted_covariance<double, tag::covariate1>, tag::weighted_sum_of_variates<double, tag::covariate1>,
        tag::weighted_mean_of_variates<double, tag::covariate1>, tag::weighted_mean>, double> a;
    accumulator_set<double, stats<tag::weighted_covariance<double, tag::covariate2> >, double> b; accumulator_set<double, stats<tag::immediate_weighted_mean_of_variates<double, tag::covariate2> >, double> c;
    for(std::size_t i = 0; i < n; ++i)
    {
        a(x[i], weight = w[i], covariate1 = y[i], covariate2 = z[i]); b(x[i], covariate2 = z[i], weight = w[i]); c(x[i], weight = w[i], covariate2 = z[i]);
        if(n > 20 && i % 17 && i + 1 != n) continue;
        std::size_t k = i + 1; Vec X(x.begin(), x.begin() + k), Y(y.begin(), y.begin() + k), Z(z.begin(), z.begin() + k), W(w.begin(), w.begin() + k);
        LD mx = gen::maxabs(X), my = gen::maxabs(Y), mz = gen::maxabs(Z), sw = 0; for(double q : W) sw += q;
        CHECK_NEAR((extract_result<tag::weighted_sum_of_variates<double, tag::covariate1> >(a)), wmean(Y, W) * sw, gen::tol<double>(k, my * sw), "weighted sum of variates");
        CHECK_NEAR((extract_result<tag::weighted_mean_of_variates<double, tag::covariate1> >(a)), wmean(Y, W), gen::tol<double>(k, my), "weighted mean of variates");
        CHECK_NEAR((extract_result<tag::immediate_weighted_mean_of_variates<double, tag::covariate2> >(c)), wmean(Z, W), gen::tol<double>(k, mz), "immediate weighted mean of variates");
        CHECK_NEAR((extract_result<tag::weighted_covariance<double, tag::covariate1> >(a)), wcov(X, Y, W), gen::tol<double>(k, 8 * mx * my), "weighted covariance with first variate");
        CHECK_NEAR(weighted_covariance(b), wcov(X, Z, W), gen::tol<double>(k, 8 * mx * mz), "weighted covariance with second variate");
    }
    if(n >= 2 && varies(x) && varies(y) && varies(w)) s.nontrivial();
}
// integer weights are repetitions
PBT(weighted_replication, 1, "some weight is 2 or more; both columns vary")
{
    std::size_t n = len(s); Vec x = col(s, n), y = col(s, n); auto wp = gen::wprofile(s, true); auto w = gen::weights<int>(s, n, wp);
    s.note("x " + showv(x)); s.note("y " + showv(y)); s.note("w " + showv(w));
    accumulator_set<double, stats<tag::covariance<double, tag::covariate1> > > u; accumulator_set<double, stats<tag::covariance<double, tag::covariate1> >, int> v; bool rep = false;
    for(std::size_t i = 0; i < n; ++i) { for(int k = 0; k < w[i]; ++k) u(x[i], covariate1 = y[i]); v(x[i], weight = w[i], covariate1 = y[i]); rep |= w[i] > 1; }
    CHECK_NEAR(covariance(v), covariance(u), gen::tol<double>(9 * n, 8 * gen::maxabs(x) * gen::maxabs(y)), "covariance");
    if(rep && varies(x) && varies(y)) s.nontrivial();
}
