#include "P13.hpp"
template<class LR> int mirror() { return std::is_same<LR, left>::value ? -1 : 1; }
template<class T, class LR> void pot_value(Src &s)
{
    std::vector<T> v = pot_stream<T>(s); std::vector<T> srt(v); std::sort(srt.begin(), srt.end()); double u; if(s.flip()) u = (double)srt[s.draw(srt.size())]; else { double a = (double)srt.front(), b = (double)srt.back(); u = a + (b - a) * gen::real01(s); } u = (double)(T)u; int sg = mirror<LR>(); unsigned every = 1 + (unsigned)s.draw(10) + (unsigned)v.size() / 6;
    s.note("threshold " + show(u) + " samples " + showv(v));
    accumulator_set<T, stats<tag::peaks_over_threshold<LR>, tag::pot_quantile<LR>, tag::pot_tail_mean<LR> > > a(tag::peaks_over_threshold<LR>::threshold_value = u); accumulator_set<T, stats<tag::pot_tail_mean<LR>(with_threshold_value) > > b(pot_threshold_value = (T)u);
    std::vector<Item> e; bool cmp = false, tie = false;
    for(std::size_t i = 0; i < v.size(); ++i)
    {
        a(v[i]); b(v[i]); if(sg * (double)v[i] > sg * u) e.push_back(Item{sg * (double)v[i], 1, Vec()}); else if(v[i] == u) tie = true; if(i % every && i + 1 != v.size()) continue; if(e.empty()) continue;
        double p = qp(s), om = sg < 0 ? p : 1 - p; Fit f, t; std::string at = " threshold=" + show(u) + " p=" + show(p) + " after sample " + show(i); if(!expect(e, sg * u, 1 - (LD)e.size() / (i + 1), om, f, t)) continue; cmp = true;
        pot_compare(peaks_over_threshold(a), quantile(a, quantile_probability = p), tail_mean(a, quantile_probability = p), f, t, sg, at); pot_compare(peaks_over_threshold(b), quantile(b, quantile_probability = p), tail_mean(b, quantile_probability = p), f, t, sg, at + " (second set)");
    }
    if(tie) s.label("sample equal to the threshold"); if(cmp) { s.label("fit compared"); s.nontrivial(); }
}
template<class T, class LR> void pot_prob(Src &s)
{
    std::vector<T> v = pot_stream<T>(s); bool dy; double tp = prob(s, dy, std::is_same<T, double>::value); std::size_t cache = s.chance(2, 3) ? 500 : cache_sz(s); int sg = mirror<LR>(); unsigned every = 1 + (unsigned)s.draw(10) + (unsigned)v.size() / 6; s.note("threshold probability " + show(tp) + " cache " + show(cache) + " samples " + showv(v));
    accumulator_set<T, stats<tag::peaks_over_threshold<LR>(with_threshold_probability), tag::pot_quantile<LR>(with_threshold_probability), tag::pot_tail_mean<LR>(with_threshold_probability) > > a(tag::peaks_over_threshold_prob<LR>::threshold_probability = tp, tag::tail<LR>::cache_size = cache); accumulator_set<T, stats<tag::pot_tail_mean_prob<LR> > > b(pot_threshold_probability = tp, tag::tail<LR>::cache_size = cache);
    std::vector<Item> seen; bool cmp = false, refuse = false;
    for(std::size_t i = 0; i < v.size(); ++i)
    {
        a(v[i]); b(v[i]); seen.push_back(Item{(double)v[i], 1, Vec()}); if(i % every && i + 1 != v.size()) continue; std::size_t n; double lv = dir<LR>::level(tp); if(!rank_of(i + 1, lv, dy, n)) continue; double p = qp(s), om = sg < 0 ? p : 1 - p; std::string at = " threshold probability=" + show(tp) + " p=" + show(p) + " after sample " + show(i);
        if(n > std::min(i + 1, cache)) { refuse = true; CHECK_MSG(std::isnan((double)peaks_over_threshold(a).template get<0>()) && std::isnan((double)peaks_over_threshold(a).template get<1>()) && std::isnan((double)peaks_over_threshold(a).template get<2>()), "fit beyond the cache is not a number" + at); CHECK_MSG(std::isnan((double)quantile(a, quantile_probability = p)), "quantile beyond the cache is not a number" + at); continue; }
        std::vector<Item> o(seen); sort_tail<LR>(o); o.resize(n); for(auto &x : o) x.x *= sg; Fit f, t; if(!expect(o, o.back().x, 1 - (LD)lv, om, f, t)) continue; cmp = true;
        pot_compare(peaks_over_threshold(a), quantile(a, quantile_probability = p), tail_mean(a, quantile_probability = p), f, t, sg, at); pot_compare(peaks_over_threshold(b), quantile(b, quantile_probability = p), tail_mean(b, quantile_probability = p), f, t, sg, at + " (second set)");
    }
    if(refuse) s.label("rank beyond the cache"); if(cmp) { s.label("fit compared"); s.nontrivial(); }
}
template<class T, class W, class LR> void wpot_value(Src &s)
{
    std::vector<T> v = pot_stream<T>(s); std::vector<T> srt(v); std::sort(srt.begin(), srt.end()); double u; if(s.flip()) u = (double)srt[s.draw(srt.size())]; else { double a = (double)srt.front(), b = (double)srt.back(); u = a + (b - a) * gen::real01(s); } u = (double)(T)u; int sg = mirror<LR>(); unsigned every = 1 + (unsigned)s.draw(10) + (unsigned)v.size() / 6;
    gen::WProfile wp = gen::wprofile(s, std::is_integral<W>::value); std::vector<W> w = gen::weights<W>(s, v.size(), wp); s.note("threshold " + show(u) + " samples " + showv(v) + " weights " + showv(w));
    accumulator_set<T, stats<tag::weighted_peaks_over_threshold<LR>, tag::weighted_pot_quantile<LR>, tag::weighted_pot_tail_mean<LR> >, W> a(tag::weighted_peaks_over_threshold<LR>::threshold_value = u); accumulator_set<T, stats<tag::peaks_over_threshold<LR>, tag::pot_tail_mean<LR> >, W> b(pot_threshold_value = (T)u);
    std::vector<Item> e; bool cmp = false, tie = false; LD tot = 0, we = 0;
    for(std::size_t i = 0; i < v.size(); ++i)
    {
        a(v[i], weight = w[i]); b(v[i], weight = w[i]); tot += w[i]; if(sg * (double)v[i] > sg * u) { e.push_back(Item{sg * (double)v[i], (LD)w[i], Vec()}); we += w[i]; } else if(v[i] == u) tie = true; if(i % every && i + 1 != v.size()) continue; if(e.empty()) continue;
        double p = qp(s), om = sg < 0 ? p : 1 - p; Fit f, t; std::string at = " threshold=" + show(u) + " p=" + show(p) + " after sample " + show(i); if(we < 1e-3L * tot || !expect(e, sg * u, 1 - we / tot, om, f, t)) continue; cmp = true;
        pot_compare(peaks_over_threshold(a), quantile(a, quantile_probability = p), tail_mean(a, quantile_probability = p), f, t, sg, at); pot_compare(weighted_peaks_over_threshold(b), quantile(b, quantile_probability = p), tail_mean(b, quantile_probability = p), f, t, sg, at + " (second set)");
    }
    if(tie) s.label("sample equal to the threshold"); if(wp.kind) s.label("weights differ"); if(cmp) { s.label("fit compared"); s.nontrivial(); }
}
template<class T, class W, class LR> void wpot_prob(Src &s)
{
    std::vector<T> v0 = pot_stream<T>(s), v; std::set<T> d; for(T x : v0) if(d.insert(x).second) v.push_back(x); bool dy; double tp = prob(s, dy, std::is_same<T, double>::value && !std::is_same<W, float>::value); std::size_t cache = s.chance(2, 3) ? 500 : cache_sz(s); int sg = mirror<LR>(); unsigned every = 1 + (unsigned)s.draw(10) + (unsigned)v.size() / 6;
    gen::WProfile wp = gen::wprofile(s, std::is_integral<W>::value); std::vector<W> w = gen::weights<W>(s, v.size(), wp); s.note("threshold probability " + show(tp) + " cache " + show(cache) + " samples " + showv(v) + " weights " + showv(w)); bool we = gen::wdyadic(wp, std::is_integral<W>::value);
    accumulator_set<T, stats<tag::weighted_peaks_over_threshold<LR>(with_threshold_probability), tag::weighted_pot_quantile<LR>(with_threshold_probability), tag::weighted_pot_tail_mean<LR>(with_threshold_probability) >, W> a(tag::weighted_peaks_over_threshold_prob<LR>::threshold_probability = tp, tag::tail<LR>::cache_size = cache); accumulator_set<T, stats<tag::pot_tail_mean<LR>(with_threshold_probability) >, W> b(pot_threshold_probability = tp, tag::tail<LR>::cache_size = cache);
    std::vector<Item> seen; bool cmp = false, refuse = false;
    for(std::size_t i = 0; i < v.size(); ++i)
    {
        a(v[i], weight = w[i]); b(v[i], weight = w[i]); seen.push_back(Item{(double)v[i], (LD)w[i], Vec()}); if(i % every && i + 1 != v.size()) continue; std::size_t n; double lv = dir<LR>::level(tp); std::vector<Item> o(seen); sort_tail<LR>(o); if(!wrank(o, lv, dy && we, n)) continue; double p = qp(s), om = sg < 0 ? p : 1 - p; std::string at = " threshold probability=" + show(tp) + " p=" + show(p) + " after sample " + show(i);
        if(n > std::min(i + 1, cache)) { refuse = true; CHECK_MSG(std::isnan((double)peaks_over_threshold(a).template get<0>()) && std::isnan((double)peaks_over_threshold(a).template get<1>()) && std::isnan((double)peaks_over_threshold(a).template get<2>()), "fit beyond the cache is not a number" + at); CHECK_MSG(std::isnan((double)quantile(a, quantile_probability = p)), "quantile beyond the cache is not a number" + at); continue; }
        o.resize(n); for(auto &x : o) x.x *= sg; Fit f, t; if(!expect(o, o.back().x, 1 - (LD)lv, om, f, t)) continue; cmp = true;
        pot_compare(peaks_over_threshold(a), quantile(a, quantile_probability = p), tail_mean(a, quantile_probability = p), f, t, sg, at); pot_compare(weighted_peaks_over_threshold(b), quantile(b, quantile_probability = p), tail_mean(b, quantile_probability = p), f, t, sg, at + " (second set)");
    }
    if(refuse) s.label("rank beyond the cache"); if(wp.kind) s.label("weights differ"); if(cmp) { s.label("fit compared"); s.nontrivial(); }
}
