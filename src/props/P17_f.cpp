#define KITS_GROUP 0
#include "P17_params.hpp"
PDROP(tail_features_r, void, tag::tail_quantile<right>, tag::coherent_tail_mean<right>, tag::tail<right>) PDROP(tail_features_l, void, tag::tail<left>, tag::tail_quantile<left>, tag::coherent_tail_mean<left>)
typedef tag::tail_variate<double, tag::covariate1, right> tvr; typedef tag::tail_variate<double, tag::covariate1, left> tvl;
PDROP(tail_variate_r, void, tvr, tag::tail<right>) PDROP(tail_variate_l, void, tvl)
PDROP(tail_weights_r, double, tag::tail_weights<right>, tag::tail<right>) PDROP(tail_weights_l, double, tag::tail_weights<left>) PDROP(weighted_quantile_r, double, tag::weighted_tail_quantile<right>, tag::non_coherent_weighted_tail_mean<right>) PDROP(quantile_l_of_weighted_set, double, tag::tail_quantile<left>)
