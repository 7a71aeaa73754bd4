// External weights with the statistics that need the weights while samples arrive, with compensated weights, and with quantiles.
#include "P19.hpp"
template<class W, class WF, class F> struct during
{   // the set of the weights is updated first and named at each accumulation
    template<class Cmp> static void run(Src &s, Cmp cmp)
    {
        accumulator_set<void, stats<WF>, W> ws; accumulator_set<double, F, external<W> > a(tag::tail<left>::cache_size = 12); accumulator_set<double, F, W> ra(tag::tail<left>::cache_size = 12);
        gen::WProfile wp = gen::wprofile(s, std::is_integral<W>::value); int k = (int)s.draw(3); std::string log; std::size_t n = 0;
        while(n < 150 && s.more(15))
        {
            double x = val(s, k); W w = (W)gen::weight_value(s, wp, std::is_integral<W>::value, false); ++n; log += " " + show(x) + "*" + show(w);
            ws(weight = w); switch(s.draw(3)) { case 0: a(x, weight = w, weights = ws); break; case 1: a(sample = x, weights = ws, weight = w); break; default: a(weights = ws, weight = w, sample = x); }
            ra(x, weight = w); try { cmp(s, a, ws, ra); } catch(Failure &) { s.note(log); throw; }
        }
        s.note(log); if(n >= 3) s.nontrivial();
    }
};
#define EQ(E1, E2) do { auto const e1 = (E1); auto const e2 = (E2); if(!(e1 == e2 || (e1 != e1 && e2 != e2))) fail(std::string(#E1) + " is " + show(e1) + ", with the weights inside " + show(e2)); } while(0)
typedef stats<tag::immediate_weighted_mean, tag::weighted_variance, tag::weighted_sum> Imm; typedef stats<tag::mean(immediate), tag::variance(immediate), tag::moment<2> > Imm2; typedef stats<tag::weighted_tail_quantile<left>, tag::count> Tq; typedef stats<tag::sum_of_weights_kahan, tag::weighted_sum, tag::mean> Kh;
PBT(weights_immediate, 2, "three or more weighted samples")
{
    auto cmp = [](Src &, auto &a, auto &ws, auto &ra) { EQ(weighted_mean(a), weighted_mean(ra)); EQ(variance(a), variance(ra)); EQ(weighted_sum(a), weighted_sum(ra)); EQ(sum_of_weights(a, weights = ws), sum_of_weights(ra)); };
    if(s.flip()) during<double, tag::sum_of_weights, Imm>::run(s, cmp); else during<int, tag::sum_of_weights, Imm>::run(s, cmp);
}
PBT(weights_immediate_names, 1, "three or more weighted samples") { during<double, tag::sum_of_weights, Imm2>::run(s, [](Src &, auto &a, auto &ws, auto &ra) { EQ(mean(a), mean(ra)); EQ(variance(a), variance(ra)); EQ(moment<2>(a, weights = ws), moment<2>(ra)); EQ(extract_result<tag::sum_of_weights>(a, weights = ws), sum_of_weights(ra)); }); }
PBT(weights_quantile, 1, "three or more weighted samples") { during<double, tag::sum_of_weights, Tq>::run(s, [](Src &s, auto &a, auto &ws, auto &ra) { double p = (double)s.integer(1, 15) / 16; EQ(quantile(a, quantile_probability = p, weights = ws), quantile(ra, quantile_probability = p)); EQ(quantile(a, weights = ws, quantile_probability = p), quantile(ra, quantile_probability = p)); EQ(count(a), count(ra)); }); }
PBT(weights_kahan, 2, "the weights outside differ from those the set has seen")
{   // the compensated sum of the weights is read outside too
    typedef accumulator_set<void, stats<tag::sum_of_weights_kahan>, double> WK; typedef accumulator_set<void, stats<tag::sum_of_weights(kahan)>, double> WK2; WK wk; WK2 wk2; accumulator_set<double, Kh, external<double> > a; accumulator_set<double, stats<tag::sum_of_weights(kahan), tag::weighted_sum>, external<double> > b; LD sw = 0, sxw = 0, mw = 1, mx = 1; std::size_t n = 0, nw = 0, ops = 0, got = 0; std::string log; int k = (int)s.draw(3);
    while(ops < 200 && s.more(25))
    {
        ++ops;
        switch(s.draw(3))
        {
        case 0: { double w = gen::real01(s) + 0.01; wk(weight = w); wk2(weight = w); sw += w; mw += w; ++nw; log += " weights(" + show(w) + ")"; break; }
        case 1: { double x = val(s, k), w = gen::real01(s) + 0.01; a(x, weight = w); b(x, weight = w); sxw += (LD)x * w; mx += fabsl((LD)x * w); ++n; log += " set(" + show(x) + "*" + show(w) + ")"; break; }
        default: if(!n || !nw) break; ++got;
            try { near("sum_of_weights", extract_result<tag::sum_of_weights>(a, weights = wk), sw, mw, 4); near("sum_of_weights", extract_result<tag::sum_of_weights_kahan>(a, weights = wk2), sw, mw, 4); near("sum_of_weights", extract_result<tag::sum_of_weights>(b, weights = wk), sw, mw, 4); near("weighted_sum", weighted_sum(b), sxw, mx, n);
                  near("mean", mean(a, weights = wk), sxw / sw, mx / sw, n + nw); } catch(Failure &) { s.note(log); throw; }
        }
    }
    s.note(log); if(got) s.nontrivial();
}
