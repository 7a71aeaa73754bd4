#include "P22_forms.hpp"
// ---- how the features are listed: template list, other order, repetition, MPL sequence, explicit dependencies, names with options
struct vals { std::vector<double> v; std::vector<char const *> n; void add(char const *w, double x) { n.push_back(w); v.push_back(x); } };
#define V(E) r.add(#E, (double)(E));
template<class A> vals basic(A const &a) { vals r; V(count(a)) V(sum(a)) V(mean(a)) V((min)(a)) V((max)(a)) V(variance(a)) V(skewness(a)) V(moment<2>(a)) return r; }
template<class A> vals rolls(A const &a) { vals r; V(rolling_count(a)) V(rolling_sum(a)) V(rolling_mean(a)) V(rolling_variance(a)) V((max)(a)) return r; }
template<class A> vals imm(A const &a) { vals r; V(mean(a)) V(variance(a)) V(count(a)) return r; }
template<class A> vals wbasic(A const &a) { vals r; V(sum(a)) V(mean(a)) V(variance(a)) V((min)(a)) V(sum_of_weights(a)) return r; }
template<class A> vals wimm(A const &a) { vals r; V(mean(a)) V(variance(a)) return r; }
template<class A> vals meds(A const &a) { vals r; if(count(a) >= 5) { V(median(a)) } V(count(a)) return r; }
static void eq(Src &s, std::string const &log, char const *form, vals const &g, vals const &w) { for(std::size_t i = 0; i < w.v.size(); ++i) if(g.v.size() != w.v.size() || !same(g.v[i], w.v[i])) { s.note(log); fail(std::string(w.n[i]) + " of the set declared as " + form + " is " + show(g.v[i]) + ", of the plain declaration " + show(w.v[i])); } }
#define DECL(W, ...) accumulator_set<double, __VA_ARGS__, W>
#define ALSO(W, ...) { accumulator_set<double, __VA_ARGS__, W> b(tag::rolling_window::window_size = win); feed(b, xs, ws); eq(s, log, #__VA_ARGS__, READ(b), READ(a)); }
template<class A> typename std::enable_if<std::is_void<typename A::weight_type>::value>::type feed(A &a, std::vector<double> const &x, std::vector<double> const &) { for(double v : x) a(v); }
template<class A> typename std::enable_if<!std::is_void<typename A::weight_type>::value>::type feed(A &a, std::vector<double> const &x, std::vector<double> const &w) { for(std::size_t i = 0; i < x.size(); ++i) a(x[i], weight = w[i]); }
#define START(W, ...) std::vector<double> xs, ws; std::size_t win = 1 + s.draw(5); int k = (int)s.draw(3); gen::WProfile wp = gen::wprofile(s, false); std::string log = "window " + show(win) + ":"; while(xs.size() < 40 && s.more(10)) { xs.push_back(val(s, k)); ws.push_back(gen::weight_value(s, wp, false, false)); log += " " + show(xs.back()) + "*" + show(ws.back()); } if(xs.size() < 2) return; accumulator_set<double, __VA_ARGS__, W> a(tag::rolling_window::window_size = win); feed(a, xs, ws); s.note(log); if(xs.size() >= 4) s.nontrivial();
#define READ basic
PBT(list_basic, 1, "four or more samples")
{
    START(void, stats<tag::skewness, tag::min, tag::max, tag::lazy_variance>)
    ALSO(void, features<tag::skewness, tag::min, tag::max, tag::lazy_variance>) ALSO(void, stats<tag::lazy_variance, tag::max, tag::min, tag::skewness>) ALSO(void, mpl::vector<tag::max, tag::skewness, tag::lazy_variance, tag::min>) ALSO(void, stats<tag::skewness, tag::min, tag::skewness, tag::max, tag::lazy_variance, tag::lazy_variance>) ALSO(void, stats<tag::skewness, tag::min, tag::max, tag::variance(lazy)>) ALSO(void, stats<tag::count, tag::sum, tag::mean, tag::moment<2>, tag::moment<3>, tag::lazy_variance, tag::skewness, tag::max, tag::min>) ALSO(void, stats<tag::min, tag::max, tag::skewness, tag::moment<3>, tag::lazy_variance, tag::moment<2>, tag::mean(lazy), tag::sum, tag::count>) ALSO(void, stats<tag::variance(lazy), tag::kurtosis, tag::max, tag::skewness, tag::min, tag::sum_kahan, tag::rolling_mean>)
}
#undef READ
#define READ imm
PBT(list_immediate, 1, "four or more samples")
{
    START(void, stats<tag::variance>)
    ALSO(void, stats<tag::variance(immediate)>) ALSO(void, features<tag::immediate_mean, tag::variance>) ALSO(void, stats<tag::variance, tag::mean(immediate)>) ALSO(void, mpl::vector<tag::variance, tag::immediate_mean, tag::count>) ALSO(void, stats<tag::mean(immediate), tag::variance(immediate), tag::mean(immediate)>)
}
#undef READ
#define READ rolls
PBT(list_rolling, 1, "four or more samples")
{
    START(void, stats<tag::rolling_variance, tag::rolling_sum, tag::max>)
    ALSO(void, stats<tag::max, tag::rolling_sum, tag::rolling_variance>) ALSO(void, features<tag::rolling_sum, tag::max, tag::rolling_variance>) ALSO(void, stats<tag::rolling_sum, tag::rolling_variance(immediate), tag::max>) ALSO(void, stats<tag::rolling_count, tag::max, tag::rolling_mean(immediate), tag::rolling_sum, tag::rolling_variance>) ALSO(void, mpl::vector<tag::rolling_variance, tag::max, tag::rolling_sum>) ALSO(void, stats<tag::immediate_rolling_mean, tag::immediate_rolling_variance, tag::rolling_sum, tag::max>)
}
#undef READ
#define READ wbasic
PBT(list_weighted, 1, "four or more samples")
{
    START(double, stats<tag::lazy_variance, tag::min>)
    ALSO(double, features<tag::min, tag::variance(lazy)>) ALSO(double, stats<tag::lazy_weighted_variance, tag::min>) ALSO(double, stats<tag::min, tag::weighted_variance(lazy), tag::weighted_sum>) ALSO(double, mpl::vector<tag::sum, tag::weighted_mean, tag::min, tag::lazy_variance>) ALSO(double, stats<tag::sum_of_weights, tag::weighted_sum, tag::mean, tag::weighted_moment<2>, tag::lazy_variance, tag::min>) ALSO(double, stats<tag::min, tag::weighted_skewness, tag::lazy_weighted_variance, tag::kurtosis>)
}
#undef READ
#define READ wimm
PBT(list_weighted_immediate, 1, "four or more samples")
{
    START(double, stats<tag::variance>)
    ALSO(double, stats<tag::weighted_variance>) ALSO(double, stats<tag::variance(immediate)>) ALSO(double, stats<tag::mean(immediate), tag::weighted_variance>) ALSO(double, features<tag::immediate_weighted_mean, tag::variance>) ALSO(double, stats<tag::weighted_variance(immediate), tag::weighted_mean(immediate)>)
}
#undef READ
#define READ meds
PBT(list_median, 1, "four or more samples")
{
    START(void, stats<tag::median>)
    ALSO(void, stats<tag::median(with_p_square_quantile)>) ALSO(void, features<tag::p_square_quantile_for_median, tag::median>) ALSO(void, stats<tag::count, tag::median, tag::p_square_quantile_for_median>)
}
