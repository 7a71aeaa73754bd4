#define KITS_GROUP 0
#include "P17_params.hpp"
PDROP(pot_value, void, tag::peaks_over_threshold<right>, tag::pot_quantile<right>) PDROP(pot_prob, void, tag::pot_tail_mean_prob<left>) PDROP(weighted_pot, double, tag::weighted_peaks_over_threshold<left>) PDROP(weighted_pot_prob, double, tag::weighted_pot_quantile_prob<right>)
PDROP(weighted_psquare, double, tag::weighted_p_square_quantile, tag::weighted_median) PDROP(weighted_extended, double, tag::weighted_extended_p_square_quantile) PDROP(weighted_cumul, double, tag::weighted_p_square_cumulative_distribution) PDROP(weighted_dens, double, tag::weighted_density, tag::with_density_weighted_median)
typedef tag::weighted_covariance<double, tag::covariate1> wcov; PDROP(weighted_covariates, double, wcov, tag::sum_of_weights)
