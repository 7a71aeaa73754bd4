#define KITS_GROUP 0
#include "P17_params.hpp"
PDROP(psquare, void, tag::p_square_quantile, tag::median) PDROP(extended, void, tag::extended_p_square_quantile, tag::extended_p_square, tag::count) PDROP(cumul, void, tag::p_square_cumulative_distribution, tag::with_p_square_cumulative_distribution_median) PDROP(dens, void, tag::density, tag::with_density_median, tag::count)
PDROP(rolling, void, tag::rolling_mean, tag::rolling_sum, tag::rolling_count, tag::rolling_moment<2>) PDROP(rolling_var, void, tag::rolling_variance) PDROP(rolling_lazy_var, void, tag::lazy_rolling_variance, tag::lazy_rolling_mean)
typedef tag::covariance<double, tag::covariate1> cov; typedef tag::mean_of_variates<double, tag::covariate1> mov; typedef tag::sum_of_variates<double, tag::covariate1> sov;
PDROP(covariates, void, cov, mov, tag::mean, tag::count)
