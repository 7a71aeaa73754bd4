// vector valued samples and variates, lengths may differ
#include "P03.hpp"
typedef std::vector<Vec> Rows;
static Rows rows(Src &s, std::size_t n, std::size_t d) { std::vector<Vec> cols; for(std::size_t j = 0; j < d; ++j) cols.push_back(col(s, n)); Rows r(n, Vec(d)); for(std::size_t i = 0; i < n; ++i) for(std::size_t j = 0; j < d; ++j) r[i][j] = cols[j][i]; return r; }
static Vec column(Rows const &r, std::size_t j) { Vec v; for(auto const &x : r) v.push_back(x[j]); return v; }
static std::string showr(Rows const &r) { std::string o; for(auto const &x : r) o += showv(x); return o; }
PBT(vector_vector, 3, "two or more samples and some dimension of two or more")
{
    std::size_t n = len(s); if(n > 60) n = 60; std::size_t const top = s.draw(8) == 7 ? 9 : 3; std::size_t p = 1 + s.draw(top), q = 1 + s.draw(top); Rows x = rows(s, n, p), y = rows(s, n, q); bool wt = s.flip(); auto wp = gen::wprofile(s, false);
    Vec w = wt ? gen::weights<double>(s, n, wp) : Vec(n, 1.0);
    s.note("x " + showr(x)); s.note("y " + showr(y)); if(wt) s.note("w " + showv(w));
    typedef boost::numeric::ublas::matrix<double> M; M m; Vec mv, sv;
    if(wt)
    {
        accumulator_set<Vec, stats<tag::weighted_covariance<Vec, tag::covariate1>, tag::weighted_mean_of_variates<Vec, tag::covariate1>, tag::weighted_sum_of_variates<Vec, tag::covariate1> >, double> a(sample = Vec(p), covariate1 = Vec(q));
        for(std::size_t i = 0; i < n; ++i) a(x[i], weight = w[i], covariate1 = y[i]);
        m = weighted_covariance(a); mv = extract_result<tag::weighted_mean_of_variates<Vec, tag::covariate1> >(a); sv = extract_result<tag::weighted_sum_of_variates<Vec, tag::covariate1> >(a);
    }
    else
    {
        accumulator_set<Vec, stats<tag::covariance<Vec, tag::covariate1>, tag::mean_of_variates<Vec, tag::covariate1>, tag::sum_of_variates<Vec, tag::covariate1> > > a(sample = Vec(p), covariate1 = Vec(q));
        for(std::size_t i = 0; i < n; ++i) a(x[i], covariate1 = y[i]);
        m = covariance(a); mv = extract_result<tag::mean_of_variates<Vec, tag::covariate1> >(a); sv = extract_result<tag::sum_of_variates<Vec, tag::covariate1> >(a);
    }
    CHECK_EQ(m.size1(), q, "rows of the covariance matrix (one per variate component)"); CHECK_EQ(m.size2(), p, "columns of the covariance matrix (one per sample component)");
    CHECK_EQ(mv.size(), q, "components of the mean of variates"); LD sw = 0; for(double d : w) sw += d;
    for(std::size_t j = 0; j < q; ++j)
    {
        Vec Y = column(y, j); LD my = gen::maxabs(Y);
        CHECK_NEAR(mv[j], wmean(Y, w), gen::tol<double>(n, my), "mean of variates"); CHECK_NEAR(sv[j], wmean(Y, w) * sw, gen::tol<double>(n, my * sw), "sum of variates");
        for(std::size_t i = 0; i < p; ++i) { Vec X = column(x, i); CHECK_NEAR(m(j, i), wcov(X, Y, w), gen::tol<double>(n, 8 * gen::maxabs(X) * my), "covariance(" + show(j) + "," + show(i) + ")"); }
    }
    if(n >= 2 && (p >= 2 || q >= 2)) s.nontrivial(); if(p != q) s.label("different dimensions"); if(wt) s.label("weighted");
}
PBT(vector_scalar, 2, "two or more samples, vector side has two or more components")
{
    std::size_t n = len(s); if(n > 60) n = 60; std::size_t q = 1 + s.draw(3); Rows y = rows(s, n, q); Vec x = col(s, n), one(n, 1.0); bool sample_vec = s.flip(); Vec c;
    s.note("vector side " + showr(y)); s.note("scalar side " + showv(x));
    if(sample_vec) { accumulator_set<Vec, stats<tag::covariance<double, tag::covariate1> > > a(sample = Vec(q)); for(std::size_t i = 0; i < n; ++i) a(y[i], covariate1 = x[i]); c = covariance(a); }
    else { accumulator_set<double, stats<tag::covariance<Vec, tag::covariate1> > > a(covariate1 = Vec(q)); for(std::size_t i = 0; i < n; ++i) a(x[i], covariate1 = y[i]); c = covariance(a); }
    CHECK_EQ(c.size(), q, "components");
    for(std::size_t j = 0; j < q; ++j) { Vec Y = column(y, j); CHECK_NEAR(c[j], wcov(x, Y, one), gen::tol<double>(n, 8 * gen::maxabs(x) * gen::maxabs(Y)), "covariance component"); }
    if(n >= 2 && q >= 2) s.nontrivial();
}
// vectors of integers, results after some prefix and at the end
PBT(vector_int, 1, "two or more samples and some dimension of two or more")
{
    typedef std::vector<int> IV; std::size_t n = len(s); if(n > 60) n = 60; std::size_t p = 1 + s.draw(4), q = 1 + s.draw(4), stop = 1 + s.draw(n); std::vector<IV> x(n, IV(p)), y(n, IV(q)); Rows xr(n, Vec(p)), yr(n, Vec(q));
    for(std::size_t i = 0; i < n; ++i) { for(std::size_t j = 0; j < p; ++j) xr[i][j] = x[i][j] = (int)s.signedint(40); for(std::size_t j = 0; j < q; ++j) yr[i][j] = y[i][j] = (int)s.signedint(40); }
    s.note("x " + showr(xr)); s.note("y " + showr(yr));
    accumulator_set<IV, stats<tag::covariance<IV, tag::covariate1>, tag::mean_of_variates<IV, tag::covariate1>, tag::sum_of_variates<IV, tag::covariate1> > > a(sample = IV(p), covariate1 = IV(q));
    for(std::size_t i = 0; i < n; ++i)
    {
        a(x[i], covariate1 = y[i]); std::size_t k = i + 1; if(k != stop && k != n) continue; boost::numeric::ublas::matrix<double> m = covariance(a); Vec mv = extract_result<tag::mean_of_variates<IV, tag::covariate1> >(a); IV sv = extract_result<tag::sum_of_variates<IV, tag::covariate1> >(a); Vec one(k, 1.0); Rows X(xr.begin(), xr.begin() + k), Y(yr.begin(), yr.begin() + k);
        CHECK_EQ(m.size1(), q, "rows"); CHECK_EQ(m.size2(), p, "columns"); CHECK_EQ(mv.size(), q, "components of the mean"); CHECK_EQ(sv.size(), q, "components of the sum");
        for(std::size_t j = 0; j < q; ++j) { Vec c = column(Y, j); CHECK_NEAR(mv[j], wmean(c, one), 1e-10L, "mean of variates"); CHECK_EQ((LD)sv[j], wmean(c, one) * k + 0.0L == 0 ? 0.0L : roundl(wmean(c, one) * k), "sum of variates"); for(std::size_t i2 = 0; i2 < p; ++i2) CHECK_NEAR(m(j, i2), wcov(column(X, i2), c, one), 1e-8L, "covariance(" + show(j) + "," + show(i2) + ")"); }
    }
    if(n >= 2 && (p >= 2 || q >= 2)) s.nontrivial();
}
