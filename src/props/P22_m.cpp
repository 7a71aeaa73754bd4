// with_error, extractors a user defines with the library's macro or as an object, names passed through argument packs
#include "P22_forms.hpp"
#include <boost/accumulators/statistics/with_error.hpp>
#include <boost/accumulators/statistics/error_of_mean.hpp>
namespace user {
    template<int N, int D> struct scaled_moment_impl : accumulator_base { typedef double result_type; scaled_moment_impl(dont_care) {} template<class Args> result_type result(Args const &args) const { return N * moment<D>(args) + args[quantile_probability | 0.5]; } };
    struct spread_impl : accumulator_base { typedef double result_type; spread_impl(dont_care) {} template<class Args> result_type result(Args const &args) const { return (max)(args) - (min)(args); } };
    namespace tag {
        template<int N, int D> struct scaled_moment : depends_on<boost::accumulators::tag::moment<D> > { typedef boost::mpl::always<scaled_moment_impl<N, D> > impl; };
        struct spread : depends_on<boost::accumulators::tag::min, boost::accumulators::tag::max> { typedef boost::mpl::always<spread_impl> impl; };
    }
    BOOST_ACCUMULATORS_DEFINE_EXTRACTOR(tag, scaled_moment, (int)(int))
    extractor<tag::spread> const spread = {};
}
// with_error<F, G> asks for the errors of F and G and brings F and G along
PBT(with_error_forms, 1, "three or more samples, not all equal")
{
    accumulator_set<double, stats<tag::error_of<tag::mean(lazy)> > > al; accumulator_set<double, stats<tag::error_of<tag::mean(immediate)> > > ai; accumulator_set<double, stats<tag::min, tag::error_of<tag::mean(lazy)>, tag::error_of<tag::mean(immediate)>, tag::max> > a; // lazy and immediate variance are one feature: a set has one of them 
    accumulator_set<double, stats<with_error<tag::mean(lazy)> > > b; accumulator_set<double, stats<with_error<tag::mean(immediate)> > > c; accumulator_set<double, stats<tag::min, with_error<tag::mean(lazy), tag::mean(immediate)>, tag::max> > d; accumulator_set<double, with_error<tag::mean> > e;
    int k = (int)s.draw(3); std::size_t n = 0; std::string log; LD sum = 0, sq = 0, mag = 1; double lo = 1e300, hi = -1e300;
    while(n < 60 && s.more(10)) { double x = val(s, k); al(x); ai(x); a(x); b(x); c(x); d(x); e(x); ++n; sum += x; sq += (LD)x * x; mag = std::max<LD>(mag, fabsl(x)); lo = std::min(lo, x); hi = std::max(hi, x); log += " " + show(x); }
    s.note(log); if(!n) return;
    CHECK_EQ(count(b), n, "count with error of mean"); CHECK_EQ(count(d), n, "count with errors of both means"); CHECK_EQ((min)(d), lo, "min listed before with_error"); CHECK_EQ((max)(d), hi, "max listed after with_error"); CHECK_NEAR((LD)mean(b), sum / n, gen::tol<double>(n, mag), "mean brought along by with_error"); CHECK_NEAR((LD)mean(c), sum / n, gen::tol<double>(n, mag), "immediate mean brought along by with_error"); CHECK_SAME((double)mean(e), (double)mean(b), "mean of a set of with_error alone");
    if(n < 2) return;
    double l = error_of<tag::mean(lazy)>(al), i = error_of<tag::mean(immediate)>(ai), l2 = error_of<tag::mean(lazy)>(a), i2 = error_of<tag::mean(immediate)>(a);
    agree(s, log, "error of the mean", "with_error", error_of<tag::mean(lazy)>(b), l); agree(s, log, "error of the mean", "tag::mean in with_error<mean(lazy)>", error_of<tag::mean>(b), l); agree(s, log, "error of the mean", "one of two in with_error", error_of<tag::mean(lazy)>(d), l2); agree(s, log, "error of the mean", "with_error alone", error_of<tag::mean>(e), l); agree(s, log, "error of the mean", "extract_result", extract_result<tag::error_of<tag::mean> >(d), l2);
    agree(s, log, "error of the immediate mean", "with_error", error_of<tag::mean(immediate)>(c), i); agree(s, log, "error of the immediate mean", "tag::immediate_mean", error_of<tag::immediate_mean>(c), i); agree(s, log, "error of the immediate mean", "one of two in with_error", error_of<tag::mean(immediate)>(d), i2); agree(s, log, "error of the immediate mean", "extractor object", extractor<tag::error_of<tag::immediate_mean> >()(d), i2);
    LD var = std::max<LD>(0, sq / n - sum / n * (sum / n)), slack = gen::tol<double>(n, mag * mag); for(LD g : { (LD)l, (LD)i, (LD)l2, (LD)i2 }) CHECK_NEAR(g != g ? 0 : g * g * (n - 1), var, 4 * slack, "squared error of the mean");
    if(n >= 3 && hi > lo) s.nontrivial();
}
PBT(user_extractors, 1, "three or more samples")
{
    typedef accumulator_set<double, features<user::tag::scaled_moment<3, 2>, user::tag::scaled_moment<-2, 3>, user::tag::spread> > set; int k = (int)s.draw(3); std::size_t n = 0; set a; std::string log; LD m2 = 0, m3 = 0, mag = 1; double lo = 1e300, hi = -1e300; double p = (double)s.integer(0, 64) / 64;
    while(n < 40 && s.more(8)) { double x = val(s, k); a(x); ++n; m2 += (LD)x * x; m3 += (LD)x * x * x; mag = std::max<LD>(mag, fabsl(x)); lo = std::min(lo, x); hi = std::max(hi, x); log += " " + show(x); }
    s.note("argument " + show(p) + log); if(!n) return;
    LD t = gen::tol<double>(n, mag * mag * mag * 4); CHECK_NEAR((LD)user::scaled_moment<3 BOOST_PP_COMMA() 2>(a), 3 * m2 / n + 0.5, t, "extractor made by the macro"); CHECK_NEAR((LD)user::scaled_moment<3 BOOST_PP_COMMA() 2>(a, quantile_probability = p), 3 * m2 / n + p, t, "extractor made by the macro, with an argument"); CHECK_NEAR((LD)user::scaled_moment<-2 BOOST_PP_COMMA() 3>(a, covariate1 = 4, quantile_probability = p), -2 * m3 / n + p, t, "extractor made by the macro, with two arguments"); CHECK_NEAR((LD)user::scaled_moment<-2 BOOST_PP_COMMA() 3>((quantile_probability = p, accumulator = a)), -2 * m3 / n + p, t, "extractor made by the macro, given an argument pack");
    CHECK_NEAR((LD)(extractor<user::tag::scaled_moment<-2 BOOST_PP_COMMA() 3> >()(a, quantile_probability = p)), -2 * m3 / n + p, t, "extractor object"); CHECK_NEAR((LD)(extract_result<user::tag::scaled_moment<3 BOOST_PP_COMMA() 2> >(a, quantile_probability = p)), 3 * m2 / n + p, t, "extract_result"); CHECK_SAME((double)user::spread(a), hi - lo, "user-defined spread"); CHECK_SAME((double)user::spread(a, covariate1 = 3, quantile_probability = p), hi - lo, "user-defined spread with arguments"); CHECK_SAME((double)user::spread((accumulator = a)), hi - lo, "user-defined spread of an argument pack");
    if(n >= 3) s.nontrivial();
}
