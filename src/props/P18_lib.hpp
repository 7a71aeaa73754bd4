// Sets of library features chosen at compile time from a seed (any subset, any order, duplicates, nested lists), compared with
// sets that compute one of the features only.
#define KITS_GROUP 0
#include "../kits.hpp"
#include <memory>
using namespace boost::accumulators; using namespace pbt; using kits::Par; using kits::In; using kits::Out;
typedef std::uint64_t U;
constexpr U hsh(U a, U b, U c) { U z = a * 0x9e3779b97f4a7c15ULL + b * 0xbf58476d1ce4e5b9ULL + c * 0x94d049bb133111ebULL + 0x7654321; z ^= z >> 30; z *= 0xbf58476d1ce4e5b9ULL; z ^= z >> 27; z *= 0x94d049bb133111ebULL; return z ^ (z >> 31); }
// kind: 0 plain, 1 selects, or brings along, another algorithm for a feature others may use, 2 computed from such a feature (ill-conditioned)
template<int W, int I> struct LF;
static char const *lf_name[2][40];
#define FEAT(W, I, KIND, EXPR, ...) template<> struct LF<W, I> { using type = __VA_ARGS__; static int const kind = KIND; template<class A> static void probe(A const &a, double q, Out &o) { (void)q; using kits::put; put(o, EXPR); } }; static int const lf_reg_##W##_##I = (lf_name[W][I] = #__VA_ARGS__, 0);
typedef tag::covariance<double, tag::covariate1> cov1; typedef tag::mean_of_variates<double, tag::covariate1> mov1; typedef tag::sum_of_variates<double, tag::covariate1> sov1;
FEAT(0, 0, 0, count(a), tag::count)
FEAT(0, 1, 0, sum(a), tag::sum)
FEAT(0, 2, 0, mean(a), tag::mean)
FEAT(0, 3, 0, (min)(a), tag::min)
FEAT(0, 4, 0, (max)(a), tag::max)
FEAT(0, 5, 0, moment<2>(a), tag::moment<2>)
FEAT(0, 6, 0, moment<4>(a), tag::moment<4>)
FEAT(0, 7, 1, variance(a), tag::variance)
FEAT(0, 8, 2, skewness(a), tag::skewness)
FEAT(0, 9, 2, kurtosis(a), tag::kurtosis)
FEAT(0, 10, 2, error_of<tag::mean>(a), tag::error_of<tag::mean>)
FEAT(0, 11, 0, median(a), tag::median)
FEAT(0, 12, 0, quantile(a, quantile_probability = q), tag::tail_quantile<right>)
FEAT(0, 13, 0, non_coherent_tail_mean(a, quantile_probability = q), tag::non_coherent_tail_mean<right>)
FEAT(0, 14, 0, coherent_tail_mean(a, quantile_probability = q), boost::mpl::vector<tag::tail_quantile<right>, tag::coherent_tail_mean<right> >)
FEAT(0, 15, 0, tail(a), tag::tail<right>)
FEAT(0, 16, 0, p_square_cumulative_distribution(a), tag::p_square_cumulative_distribution)
FEAT(0, 17, 0, extended_p_square(a), tag::extended_p_square)
FEAT(0, 18, 0, rolling_sum(a), tag::rolling_sum)
FEAT(0, 19, 0, rolling_mean(a), tag::rolling_mean)
FEAT(0, 20, 1, rolling_mean(a), tag::lazy_rolling_mean)
FEAT(0, 21, 1, rolling_variance(a), tag::rolling_variance)
FEAT(0, 22, 1, rolling_variance(a), tag::lazy_rolling_variance)
FEAT(0, 23, 0, p_square_quantile(a), tag::p_square_quantile)
FEAT(0, 24, 1, covariance(a), cov1)
FEAT(0, 25, 0, (mean_of_variates<double, tag::covariate1>(a)), mov1)
FEAT(0, 26, 1, sum(a), tag::sum_kahan)
FEAT(0, 27, 1, mean(a), tag::immediate_mean)
FEAT(0, 28, 1, variance(a), tag::lazy_variance)
FEAT(0, 29, 0, rolling_count(a), tag::rolling_count)
FEAT(0, 30, 0, (extract_result<sov1>(a)), sov1)
FEAT(0, 31, 1, mean(a), tag::mean(immediate))
FEAT(0, 32, 0, rolling_moment<3>(a), tag::rolling_moment<3>)
template<> struct LF<0, 33> : LF<0, 0> {};
FEAT(1, 0, 0, count(a), tag::count)
FEAT(1, 1, 0, sum(a), tag::sum)
FEAT(1, 2, 0, mean(a), tag::mean)
FEAT(1, 3, 0, (min)(a), tag::min)
FEAT(1, 4, 0, (max)(a), tag::max)
FEAT(1, 5, 0, moment<2>(a), tag::moment<2>)
FEAT(1, 6, 0, moment<4>(a), tag::moment<4>)
FEAT(1, 7, 1, variance(a), tag::variance)
FEAT(1, 8, 2, skewness(a), tag::skewness)
FEAT(1, 9, 2, kurtosis(a), tag::kurtosis)
FEAT(1, 10, 0, sum_of_weights(a), tag::sum_of_weights)
FEAT(1, 11, 0, median(a), tag::median)
FEAT(1, 12, 0, quantile(a, quantile_probability = q), tag::tail_quantile<right>)
FEAT(1, 13, 0, non_coherent_tail_mean(a, quantile_probability = q), tag::non_coherent_tail_mean<right>)
FEAT(1, 14, 0, mean_of_weights(a), tag::mean_of_weights)
FEAT(1, 15, 0, tail(a), tag::tail<right>)
FEAT(1, 16, 0, p_square_cumulative_distribution(a), tag::p_square_cumulative_distribution)
FEAT(1, 17, 0, extended_p_square(a), tag::extended_p_square)
FEAT(1, 18, 0, p_square_quantile(a), tag::p_square_quantile)
FEAT(1, 19, 1, covariance(a), cov1)
FEAT(1, 20, 0, (mean_of_variates<double, tag::covariate1>(a)), mov1)
FEAT(1, 21, 1, sum(a), tag::sum_kahan)
FEAT(1, 22, 1, mean(a), tag::immediate_mean)
FEAT(1, 23, 1, variance(a), tag::lazy_variance)
FEAT(1, 24, 1, sum_of_weights(a), tag::sum_of_weights_kahan)
FEAT(1, 25, 0, rolling_mean(a), tag::rolling_mean)
FEAT(1, 26, 1, weighted_variance(a), tag::weighted_variance)
FEAT(1, 27, 0, weighted_mean(a), tag::weighted_mean)
FEAT(1, 28, 1, variance(a), tag::variance(lazy))
static int const NF[2] = { 33, 29 };
// W: 0 unweighted, 1 weighted; variants (kind 1) only in every other set
constexpr int nlist(int S) { return 3 + (int)(hsh(S, 1, 1) % 5); }
template<int W> constexpr int kind_of(int I);
template<int W, int... I> constexpr int kind_at(int i, std::integer_sequence<int, I...>) { int const k[] = { LF<W, I>::kind... }; return k[i]; }
template<int W> constexpr int kind_of(int i) { return kind_at<W>(i, std::make_integer_sequence<int, W ? 29 : 33>()); }
template<int W> constexpr bool has_variants(int S) { return S % 2 == 0; }
template<int W> constexpr int listed(int S, int k)
{
    int const n = W ? 29 : 33; int r = (int)(hsh(S, 2, k) % n);
    for(;;) { int kd = kind_of<W>(r); bool bad = has_variants<W>(S) ? kd == 2 : kd == 1; if(!bad) return r; r = (r + 1) % n; }
}
template<int W> constexpr bool in_kind(int i) { return false; }
template<int W, int S, class Seq> struct pack18; 
template<int W, int S, int... K> struct pack18<W, S, std::integer_sequence<int, K...> > { typedef stats<typename LF<W, listed<W>(S, K)>::type...> type; };
template<class A> A *make_set(Par const &p)
{
    return new A(tag::tail<right>::cache_size = p.cache, tag::rolling_window::window_size = p.win, quantile_probability = p.p, p_square_cumulative_distribution_num_cells = p.cells, extended_p_square_probabilities = p.probs);
}
template<int W, class A> void give(A &a, In const &i) { if constexpr(W) a(i.x, weight = i.w, covariate1 = i.c); else a(i.x, covariate1 = i.c); }
inline bool near(double a, double b, bool exact) { if(a == b || (a != a && b != b)) return true; if(exact) return false; double m = std::max(1.0, std::max(std::fabs(a), std::fabs(b))); return std::fabs(a - b) <= 1e-7 * m; }
template<int W, int S, int K> struct single18
{
    static int const F = listed<W>(S, K); typedef typename std::conditional<W, double, void>::type Wt; typedef accumulator_set<double, stats<typename LF<W, F>::type>, Wt> set; std::unique_ptr<set> a;
    single18(Par const &p) : a(make_set<set>(p)) {}
};
template<int W, int S, class Seq> struct combo;
template<int W, int S, int... K> struct combo<W, S, std::integer_sequence<int, K...> >
{
    typedef typename std::conditional<W, double, void>::type Wt; typedef typename pack18<W, S, std::integer_sequence<int, K...> >::type feats; typedef accumulator_set<double, feats, Wt> set;
    template<int k> static void cmp(Src &s, set const &a, single18<W, S, k> const &b, double q)
    {
        typedef LF<W, listed<W>(S, k)> L; Out x, y; L::probe(a, q, x); L::probe(*b.a, q, y); bool ok = x.size() == y.size();
        for(std::size_t i = 0; ok && i < x.size(); ++i) ok = near(x[i], y[i], !has_variants<W>(S));
        if(!ok) fail(std::string(lf_name[W][listed<W>(S, k)]) + " of the set is " + showv(x) + ", of a set computing only that " + showv(y));
    }
    static void run(Src &s)
    {
        Par p = kits::params(s); p.cache += 2; std::string names; int const ls[] = { listed<W>(S, K)... }; for(int l : ls) names += std::string(names.empty() ? "" : ", ") + lf_name[W][l];
        kits::Feed f; f.distinct = W; f.xp = gen::profile(s, false, 10); if(has_variants<W>(S)) f.xp.kind %= 5; f.wp = gen::wprofile(s, false);
        std::unique_ptr<set> a(make_set<set>(p)); std::tuple<single18<W, S, K>...> b{ single18<W, S, K>(p)... };
        std::size_t ready = std::max<std::size_t>(2 * p.probs.size() + 3, p.cells + 1), n = 0, seen = 0; ready = std::max<std::size_t>(ready, 5); std::string log;
        while(n < 120 && (n < ready || s.more(12)))
        {
            In i = f.next(s); if(n < 30) log += " " + show(i.x) + (W ? "*" + show(i.w) : "") + "|" + show(i.c);
            give<W>(*a, i); int dummy[] = { (give<W>(*std::get<K>(b).a, i), 0)... }; (void)dummy; ++n;
            if(n >= ready && s.chance(1, 3)) { double q = kits::qprob(s); s.note(""); ++seen; try { int d2[] = { (cmp<K>(s, *a, std::get<K>(b), q), 0)... }; (void)d2; } catch(Failure &) { s.note(names + "; samples" + log); throw; } }
        }
        s.note(names + "; samples" + log); if(seen) s.nontrivial();
    }
};
#define COMBO(S) PBT(combo_##S, 1, "results compared at least once") { combo<0, S, std::make_integer_sequence<int, nlist(S)> >::run(s); }
#define WCOMBO(S) PBT(wcombo_##S, 1, "results compared at least once") { combo<1, S, std::make_integer_sequence<int, nlist(S)> >::run(s); }
