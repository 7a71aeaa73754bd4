#include "P03.hpp"
// one measured variate per set (a set holds one variate feature of each kind), the other one is passed along
template<class Tag> void scalar_test(Src &s, bool second)
{
    std::size_t n = len(s); Vec x = col(s, n), y = col(s, n), z = col(s, n); Vec const &m = second ? z : y;
    s.note("x " + showv(x)); s.note("cov1 " + showv(y)); s.note("cov2 " + showv(z)); s.note(second ? "measuring cov2" : "measuring cov1");
    accumulator_set<double, stats<tag::covariance<double, Tag>, tag::sum_of_variates<double, Tag>, tag::mean_of_variates<double, Tag>, tag::mean, tag::sum, tag::count> > a;
    accumulator_set<double, stats<tag::immediate_mean_of_variates<double, Tag> > > b;
    int form = (int)s.draw(3);
    for(std::size_t i = 0; i < n; ++i)
    {
        b(x[i], covariate1 = y[i], covariate2 = z[i]);
        if(form == 0) a(x[i], covariate2 = z[i], covariate1 = y[i]); else if(form == 1) a(x[i], covariate1 = y[i], covariate2 = z[i]); else if constexpr(std::is_same<Tag, tag::covariate2>::value) a(x[i], covariate2 = z[i]); else a(x[i], covariate1 = y[i]);
        if(n > 20 && i % 17 && i + 1 != n) continue;
        std::size_t k = i + 1; Vec X(x.begin(), x.begin() + k), Y(m.begin(), m.begin() + k), O(k, 1.0);
        LD mx = gen::maxabs(X), my = gen::maxabs(Y);
        CHECK_NEAR((extract_result<tag::sum_of_variates<double, Tag> >(a)), wmean(Y, O) * k, gen::tol<double>(k, my * k), "sum of variates");
        CHECK_NEAR((extract_result<tag::mean_of_variates<double, Tag> >(a)), wmean(Y, O), gen::tol<double>(k, my), "mean of variates");
        CHECK_NEAR((extract_result<tag::immediate_mean_of_variates<double, Tag> >(b)), wmean(Y, O), gen::tol<double>(k, my), "immediate mean of variates");
        CHECK_NEAR(mean(a), wmean(X, O), gen::tol<double>(k, mx), "mean of samples");
        CHECK_NEAR(sum(a), wmean(X, O) * k, gen::tol<double>(k, mx * k), "sum of samples");
        CHECK_NEAR(covariance(a), wcov(X, Y, O), gen::tol<double>(k, 8 * mx * my), "covariance");
    }
    if(n >= 2 && varies(x) && varies(m)) s.nontrivial(); if(form == 0) s.label("arguments in other order"); if(form == 2) s.label("only the measured variate given"); if(n >= 50) s.label("50+ samples");
}
PBT(scalar_cov1, 3, "two or more samples; sample and variate vary") { scalar_test<tag::covariate1>(s, false); }
PBT(scalar_cov2, 2, "two or more samples; sample and variate vary") { scalar_test<tag::covariate2>(s, true); }
// Known finding: two variate features of one kind in one set
PBT(known_two_variates, 0, "probe of a known finding")
{
    double y = (double)s.signedint(8), z = (double)s.signedint(8);
    accumulator_set<double, stats<tag::sum_of_variates<double, tag::covariate1>, tag::sum_of_variates<double, tag::covariate2> > > a;
    a(1.0, covariate1 = y, covariate2 = z);
    CHECK_EQ((extract_result<tag::sum_of_variates<double, tag::covariate1> >(a)), y, "sum of first variate"); CHECK_EQ((extract_result<tag::sum_of_variates<double, tag::covariate2> >(a)), z, "sum of second variate");
}
// laws: Cov(x,x)=Var(x), symmetry, bilinearity; integer variates
PBT(laws, 2, "two or more samples; both columns vary")
{
    std::size_t n = len(s); Vec x = col(s, n), y = col(s, n); double c = (double)s.signedint(5), d = (double)s.signedint(5);
    s.note("x " + showv(x)); s.note("y " + showv(y));
    typedef accumulator_set<double, stats<tag::covariance<double, tag::covariate1>, tag::variance> > A; A xx, xy, yx, axy;
    for(std::size_t i = 0; i < n; ++i) { xx(x[i], covariate1 = x[i]); xy(x[i], covariate1 = y[i]); yx(y[i], covariate1 = x[i]); axy(c * x[i] + d, covariate1 = y[i]); }
    LD mx = gen::maxabs(x), my = gen::maxabs(y);
    CHECK_NEAR(covariance(xx), variance(xx), gen::tol<double>(n, 8 * mx * mx), "Cov(x,x) = Var(x)");
    CHECK_NEAR(covariance(xy), covariance(yx), gen::tol<double>(n, 8 * mx * my), "Cov(x,y) = Cov(y,x)");
    CHECK_NEAR(covariance(axy), c * covariance(xy), gen::tol<double>(n, 16 * (fabs(c) * mx + fabs(d)) * my + 16 * mx * my), "Cov(cx+d,y) = c Cov(x,y)");
    if(n >= 2 && varies(x) && varies(y)) s.nontrivial();
}
PBT(int_columns, 1, "two or more samples; both columns vary")
{
    std::size_t n = len(s); std::vector<int> x, y; for(std::size_t i = 0; i < n; ++i) { x.push_back((int)s.signedint(50)); y.push_back((int)s.signedint(50)); }
    s.note("x " + showv(x)); s.note("y " + showv(y));
    accumulator_set<int, stats<tag::covariance<int, tag::covariate1>, tag::mean_of_variates<int, tag::covariate1>, tag::sum_of_variates<int, tag::covariate1> > > a;
    for(std::size_t i = 0; i < n; ++i) a(x[i], covariate1 = y[i]);
    Vec X(x.begin(), x.end()), Y(y.begin(), y.end()), O(n, 1.0);
    CHECK_NEAR(covariance(a), wcov(X, Y, O), 1e-8L, "covariance of integers"); CHECK_EQ((extract_result<tag::sum_of_variates<int, tag::covariate1> >(a)), std::accumulate(y.begin(), y.end(), 0), "sum of integer variates");
    CHECK_NEAR((extract_result<tag::mean_of_variates<int, tag::covariate1> >(a)), wmean(Y, O), 1e-10L, "mean of integer variates");
    if(n >= 2 && varies(X) && varies(Y)) s.nontrivial();
}
