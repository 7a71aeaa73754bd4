#include "P09.hpp"
template<class T> void quantile_model(Src &s, long long imax)
{
    bool dy; double p = qprob(s, dy); auto st = gen::stream<T>(s, imax, 5, 1500, psq_len(s)); psq::tidy(s, st.v); s.note("p " + show(p) + " samples " + showv(st.v));
    accumulator_set<T, stats<tag::p_square_quantile> > a(quantile_probability = p); accumulator_set<T, stats<tag::median(with_p_square_quantile)> > md(quantile_probability = p); accumulator_set<T, stats<tag::p_square_quantile, tag::median> > half;
    psq::Model m(psq::frac_quantile(p), dy), h(psq::frac_quantile(0.5L), true); LD lo = INFINITY, hi = -INFINITY; std::size_t cmp = 0, step = 1 + st.v.size() / 40;
    for(std::size_t i = 0; i < st.v.size(); ++i)
    {
        T x = st.v[i]; a(x); md(x); half(x); m.add(x, 1); h.add(x, 1); lo = std::min(lo, (LD)x); hi = std::max(hi, (LD)x); if(!m.ready()) continue; if(i >= 40 && i % step && i + 1 != st.v.size()) continue;
        LD e = p_square_quantile(a), d = median(md), t = 1e-10L * m.hscale(); std::string at = " p=" + show(p) + " after sample " + show(i);
        CHECK_MSG(e >= lo - t && e <= hi + t, "estimate " + show(e) + " inside the sample range" + at); CHECK_MSG(d >= lo - t && d <= hi + t, "median " + show(d) + " inside the sample range" + at);
        CHECK_SAME((double)p_square_quantile(half), (double)median(half), "default probability is one half" + at); CHECK_SAME((double)median(half), (double)median(md), "median does not depend on the probability parameter" + at);
        if(m.sure) { cmp = i + 1; CHECK_NEAR(e, m.h[2], 1e-9L * m.hscale(), "P2 estimate" + at); } if(h.sure) CHECK_NEAR(d, h.h[2], 1e-9L * m.hscale(), "P2 median" + at);
    }
    psq_labels(s, m, cmp, st.v.size());
}
template<class T, class W> void quantile_model_w(Src &s, long long imax)
{
    bool dy; double p = qprob(s, dy); auto st = gen::stream<T>(s, imax, 5, 1500, psq_len(s)); gen::WProfile wp = gen::wprofile(s, std::is_integral<W>::value); std::vector<W> w = gen::weights<W>(s, st.v.size(), wp, false); psq::tidy(s, st.v, w, true);
    s.note("p " + show(p) + " samples " + showv(st.v) + " weights " + showv(w)); bool const we = gen::wdyadic(wp, std::is_integral<W>::value);
    accumulator_set<T, stats<tag::weighted_p_square_quantile>, W> a(quantile_probability = p); accumulator_set<T, stats<tag::p_square_quantile>, W> b(quantile_probability = p); accumulator_set<T, stats<tag::weighted_median(with_p_square_quantile)>, W> md(quantile_probability = p); accumulator_set<T, stats<tag::median>, W> md2;
    accumulator_set<T, stats<tag::weighted_p_square_quantile>, W> one(quantile_probability = p); accumulator_set<T, stats<tag::p_square_quantile> > plain(quantile_probability = p);
    psq::Model m(psq::frac_quantile(p), dy && we), h(psq::frac_quantile(0.5L), we), u(psq::frac_quantile(p), dy); LD lo = INFINITY, hi = -INFINITY; std::size_t cmp = 0, step = 1 + st.v.size() / 40;
    for(std::size_t i = 0; i < st.v.size(); ++i)
    {
        T x = st.v[i]; a(x, weight = w[i]); b(x, weight = w[i]); md(x, weight = w[i]); md2(x, weight = w[i]); one(x, weight = W(1)); plain(x); m.add(x, w[i]); h.add(x, w[i]); u.add(x, 1); lo = std::min(lo, (LD)x); hi = std::max(hi, (LD)x); if(!m.ready()) continue; if(i >= 40 && i % step && i + 1 != st.v.size()) continue;
        LD e = weighted_p_square_quantile(a), d = weighted_median(md), t = 1e-10L * m.hscale(); std::string at = " p=" + show(p) + " after sample " + show(i);
        CHECK_SAME((double)e, (double)weighted_p_square_quantile(b), "asking for the unweighted feature in a weighted set" + at); CHECK_SAME((double)d, (double)median(md2), "asking for the unweighted median in a weighted set" + at);
        CHECK_MSG(e >= lo - t && e <= hi + t, "estimate " + show(e) + " inside the sample range" + at); CHECK_MSG(d >= lo - t && d <= hi + t, "median " + show(d) + " inside the sample range" + at);
        if(u.sure) CHECK_NEAR(weighted_p_square_quantile(one), p_square_quantile(plain), 1e-9L * m.hscale(), "unit weights give the unweighted estimate" + at);
        if(m.sure) { cmp = i + 1; CHECK_NEAR(e, m.h[2], 1e-9L * m.hscale(), "weighted P2 estimate" + at); } if(h.sure) CHECK_NEAR(d, h.h[2], 1e-9L * m.hscale(), "weighted P2 median" + at);
    }
    if(wp.kind) s.label("weights differ"); psq_labels(s, m, cmp, st.v.size());
}
