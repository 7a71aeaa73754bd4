#include "P22_forms.hpp"
// ---- extraction
PBT(extract_forms, 2, "three or more samples")
{
    typedef accumulator_set<double, stats<tag::count, tag::sum, tag::mean, tag::min, tag::max, tag::lazy_variance, tag::skewness, tag::kurtosis, tag::median, tag::rolling_sum, tag::rolling_count, tag::sum_kahan> > set; int k = (int)s.draw(3); std::size_t win = 1 + s.draw(5), n = 0; set a(tag::rolling_window::window_size = win); std::string log = "window " + show(win) + ":"; double m = -1e300, mi = 1e300; LD t = 0, mag = 1;
    while(n < 40 && s.more(8)) { double x = val(s, k); a(x); ++n; t += x; mag += fabsl(x); m = std::max(m, x); mi = std::min(mi, x); log += " " + show(x); }
    if(!n) return;
    NAMES(count, tag::count) NAMES(sum, tag::sum) NAMES(mean, tag::mean) NAMES(min, tag::min) NAMES(max, tag::max) NAMES(variance, tag::variance) NAMES(skewness, tag::skewness) NAMES(kurtosis, tag::kurtosis) NAMES(rolling_sum, tag::rolling_sum) NAMES(rolling_count, tag::rolling_count) NAMES(sum_kahan, tag::sum_kahan)
    if(n >= 5) NAMES(median, tag::median)
    { double w = variance(a); agree(s, log, "variance", "tag::lazy_variance", extract_result<tag::lazy_variance>(a), w); agree(s, log, "variance", "tag::variance(lazy)", extract_result<tag::variance(lazy)>(a), w); agree(s, log, "variance", "tag::lazy_variance extractor", extractor<tag::lazy_variance>()(a), w); }
    { double w = moment<2>(a); agree(s, log, "moment<2>", "extract_result", extract_result<tag::moment<2> >(a), w); agree(s, log, "moment<2>", "extractor", extractor<tag::moment<2> >()(a), w); agree(s, log, "moment<2>", "tag::moment<2>", moment<2>(a, covariate1 = 1), w); }
    if(count(a) != n || (max)(a) != m || (min)(a) != mi || fabsl(sum(a) - t) > gen::tol<double>(n, mag)) { s.note(log); fail("count, sum, min or max is wrong"); }
    s.note(log); if(n >= 3) s.nontrivial();
}
PBT(extract_weighted, 1, "three or more samples")
{
    typedef accumulator_set<double, stats<tag::sum, tag::mean, tag::min, tag::variance, tag::sum_of_weights, tag::mean_of_weights, tag::weighted_skewness>, double> set; int k = (int)s.draw(3); std::size_t n = 0; set a; std::string log; gen::WProfile wp = gen::wprofile(s, false);
    while(n < 40 && s.more(8)) { double x = val(s, k), w = gen::weight_value(s, wp, false, false); a(x, weight = w); ++n; log += " " + show(x) + "*" + show(w); }
    if(!n) return;
    NAMES(sum, tag::sum) NAMES(mean, tag::mean) NAMES(min, tag::min) NAMES(variance, tag::variance) NAMES(sum_of_weights, tag::sum_of_weights) NAMES(mean_of_weights, tag::mean_of_weights) NAMES(skewness, tag::skewness)
    NAMES(weighted_sum, tag::weighted_sum) NAMES(weighted_mean, tag::weighted_mean) NAMES(weighted_variance, tag::weighted_variance) NAMES(weighted_skewness, tag::weighted_skewness)
    agree(s, log, "sum", "weighted_sum", weighted_sum(a), sum(a)); agree(s, log, "mean", "weighted_mean", weighted_mean(a), mean(a)); agree(s, log, "variance", "weighted_variance", weighted_variance(a), variance(a)); agree(s, log, "skewness", "weighted_skewness", weighted_skewness(a), skewness(a)); agree(s, log, "variance", "tag::variance(immediate)", extract_result<tag::variance(immediate)>(a), variance(a));
    s.note(log); if(n >= 3) s.nontrivial();
}
PBT(extract_probability, 1, "five or more samples")
{
    typedef accumulator_set<double, stats<tag::tail_quantile<right>, tag::non_coherent_tail_mean<right>> > set; int k = (int)s.draw(3); std::size_t n = 0, c = 3 + s.draw(30); set a(tag::tail<right>::cache_size = c); std::string log = "cache " + show(c) + ":";
    while(n < 60 && s.more(14)) { double x = val(s, k); a(x); ++n; log += " " + show(x); }
    if(n < 5) return;
    double p = 1 - (double)(1 + s.draw(std::min(c, n))) / (n + 1), w = extract_result<tag::tail_quantile<right> >(a, quantile_probability = p), t = extract_result<tag::non_coherent_tail_mean<right> >(a, quantile_probability = p); log += " p=" + show(p);
    agree(s, log, "tail_quantile", "quantile()", quantile(a, quantile_probability = p), w); agree(s, log, "tail_quantile", "extractor", extractor<tag::tail_quantile<right> >()(a, quantile_probability = p), w); agree(s, log, "tail_quantile", "with leading argument", quantile(a, covariate1 = 3, quantile_probability = p), w); agree(s, log, "tail_quantile", "with trailing argument", quantile(a, quantile_probability = p, covariate1 = 3), w); agree(s, log, "tail_quantile", "an argument pack", quantile((accumulator = a, quantile_probability = p)), w); agree(s, log, "tail_quantile", "a reversed argument pack", quantile((quantile_probability = p, accumulator = a)), w);
    agree(s, log, "non_coherent_tail_mean", "extractor", extractor<tag::non_coherent_tail_mean<right> >()(a, quantile_probability = p), t); agree(s, log, "non_coherent_tail_mean", "named function", non_coherent_tail_mean(a, quantile_probability = p), t); agree(s, log, "non_coherent_tail_mean", "an argument pack", non_coherent_tail_mean((quantile_probability = p, accumulator = a)), t);
    s.note(log); s.nontrivial();
}
