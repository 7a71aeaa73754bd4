#include "P17_drops.hpp"
DROPS(lib_mean, void, tag::mean) DROPS(lib_immediate_mean, void, tag::immediate_mean) DROPS(lib_immediate_mean_sum, void, tag::immediate_mean, tag::sum) DROPS(lib_lazy_variance, void, tag::lazy_variance) DROPS(lib_variance, void, tag::variance)
DROPS(lib_many, void, tag::count, tag::sum, tag::min, tag::max, tag::moment<3>, tag::kurtosis) DROPS(lib_skewness_mean, void, tag::mean, tag::skewness, tag::lazy_variance)
