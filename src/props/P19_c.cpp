// Weights accumulated outside: any number of sets share one accumulation of the weights, with the same results as sets that
// accumulate the weights themselves.
#include "P19.hpp"
template<class W> struct shared
{
    typedef accumulator_set<void, stats<tag::sum_of_weights>, W> WS;
    typedef stats<tag::weighted_mean, tag::weighted_moment<2>, tag::lazy_weighted_variance, tag::weighted_skewness, tag::weighted_sum, tag::count> F1;
    typedef stats<tag::mean, tag::moment<3>, tag::kurtosis> F2;
    static void run(Src &s)
    {
        WS ws; accumulator_set<double, F1, external<W> > a; accumulator_set<double, F2, external<W> > b; accumulator_set<double, F1, W> ra; accumulator_set<double, F2, W> rb; gen::WProfile wp = gen::wprofile(s, std::is_integral<W>::value); int k = (int)s.draw(3); std::string log; std::size_t n = 0;
        while(n < 200 && s.more(20))
        {
            double x = val(s, k); W w = (W)gen::weight_value(s, wp, std::is_integral<W>::value, n > 0); ++n; log += " " + show(x) + "*" + show(w);
            switch(s.draw(3)) { case 0: ws(weight = w); a(x, weight = w); b(x, weight = w); break; case 1: a(x, weight = w); b(sample = x, weight = w); ws(weight = w); break; default: b(x, weight = w); ws(weight = w); a(weight = w, sample = x); }
            ra(x, weight = w); rb(x, weight = w);
            try {
#define EQ(E1, E2) if(!((E1) == (E2) || ((E1) != (E1) && (E2) != (E2)))) fail(std::string(#E1) + " is " + show(E1) + ", with the weights inside " + show(E2))
                EQ(weighted_mean(a, weights = ws), weighted_mean(ra)); EQ(weighted_moment<2>(a, weights = ws), weighted_moment<2>(ra)); EQ(variance(a, weights = ws), variance(ra)); EQ(skewness(a, weights = ws), skewness(ra)); EQ(weighted_sum(a), weighted_sum(ra)); EQ(count(a), count(ra)); EQ(sum_of_weights(a, weights = ws), sum_of_weights(ra)); EQ(sum_of_weights(ws), sum_of_weights(ra));
                EQ(mean(b, weights = ws), mean(rb)); EQ(moment<3>(b, weights = ws), moment<3>(rb)); EQ(kurtosis(b, weights = ws), kurtosis(rb));
            } catch(Failure &) { s.note(log); throw; }
        }
        s.note(log); if(n >= 3) s.nontrivial();
    }
};
PBT(weights_double, 2, "three or more weighted samples") { shared<double>::run(s); }
PBT(weights_int, 1, "three or more weighted samples") { shared<int>::run(s); }
PBT(weights_unequal, 2, "the weights outside differ from those the set has seen")
{   // the weights outside are read at extraction: they need not be those of this set
    typedef accumulator_set<double, stats<tag::weighted_mean, tag::weighted_moment<2> >, external<double> > A; accumulator_set<void, stats<tag::sum_of_weights>, double> ws[2]; A a; std::vector<double> wv[2]; LD sw = 0, sxx = 0, m1 = 1, m2 = 1; std::size_t n = 0, ops = 0, got = 0; std::string log; int k = (int)s.draw(3);
    while(ops < 200 && s.more(25))
    {
        ++ops;
        switch(s.draw(3))
        {
        case 0: { int j = (int)s.draw(2); double w = (double)s.integer(1, 40) / 8; ws[j](weight = w); wv[j].push_back(w); log += " weights" + show(j) + "(" + show(w) + ")"; break; }
        case 1: { double x = val(s, k), w = (double)s.integer(1, 40) / 8; a(x, weight = w); sw += (LD)x * w; sxx += (LD)x * x * w; m1 += fabsl((LD)x * w); m2 += fabsl((LD)x * x * w); ++n; log += " set(" + show(x) + "*" + show(w) + ")"; break; }
        default: { int j = (int)s.draw(2); if(wv[j].empty() || !n) break; LD t = tot(wv[j]); ++got; try { near("weighted_mean", weighted_mean(a, weights = ws[j]), sw / t, m1 / t, n + wv[j].size()); near("weighted_moment<2>", weighted_moment<2>(a, weights = ws[j]), sxx / t, m2 / t, n + wv[j].size()); near("sum_of_weights", sum_of_weights(a, weights = ws[j]), t, t, wv[j].size()); } catch(Failure &) { s.note(log); throw; } }
        }
    }
    s.note(log); if(got) s.nontrivial();
}
