#include "P17_drops.hpp"
DROPS(lib_weighted_mean, double, tag::weighted_mean) DROPS(lib_mean_of_weighted_set, double, tag::mean) DROPS(lib_weighted_variance, double, tag::weighted_variance) DROPS(lib_lazy_weighted_variance, double, tag::lazy_weighted_variance, tag::weighted_sum) DROPS(lib_weighted_moment, double, tag::weighted_moment<2>, tag::weighted_skewness, tag::sum_of_weights)
