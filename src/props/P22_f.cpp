#include "P22_forms.hpp"
// ---- passing samples, weights and variates: position, name and order do not matter
typedef tag::covariance<double, tag::covariate1> cov1; typedef tag::mean_of_variates<double, tag::covariate1> mov;
PBT(push_forms, 2, "three or more samples")
{
    typedef accumulator_set<double, stats<tag::sum, tag::min, tag::variance, cov1, tag::tail_variate<double, tag::covariate1, left> > > set; std::size_t c = 1 + s.draw(5), n = 0; set a(tag::tail<left>::cache_size = c), b(tag::tail<left>::cache_size = c); int k = (int)s.draw(3); std::string log = "cache " + show(c) + ":";
    while(n < 40 && s.more(8))
    {
        double x = val(s, k), y = val(s, k); int how = (int)s.draw(7); a(x, covariate1 = y); ++n; log += " " + show(x) + "," + show(y) + " form " + show(how);
        switch(how) { case 0: b(x, covariate1 = y); break; case 1: b(sample = x, covariate1 = y); break; case 2: b(covariate1 = y, sample = x); break; case 3: b(x, covariate2 = 5., covariate1 = y); break; case 4: { double const cx = x, cy = y; b(cx, covariate1 = cy); break; } case 5: b(double(x), covariate1 = double(y)); break; default: { set const before(b); b = before; double &rx = x; b(covariate1 = y, covariate2 = -1., sample = rx); break; } }
        agree(s, log, "sum", "another form of push", sum(b), sum(a)); agree(s, log, "min", "another form of push", (min)(b), (min)(a)); agree(s, log, "variance", "another form of push", variance(b), variance(a)); agree(s, log, "covariance", "another form of push", covariance(b), covariance(a)); if(count(a) != count(b) || count(a) != n) { s.note(log); fail("count"); }
        auto ta = tail_variate(a), tb = tail_variate(b); std::vector<double> va(ta.begin(), ta.end()), vb(tb.begin(), tb.end()); if(va != vb) { s.note(log); fail("tail_variate differs: " + showv(va) + " and " + showv(vb)); }
    }
    s.note(log); if(n >= 3) s.nontrivial();
}
PBT(push_weighted, 2, "three or more samples")
{
    typedef accumulator_set<double, stats<tag::sum, tag::mean, tag::variance, cov1, tag::sum_of_weights>, double> set; set a, b; std::size_t n = 0; int k = (int)s.draw(3); gen::WProfile wp = gen::wprofile(s, false); std::string log;
    while(n < 40 && s.more(8))
    {
        double x = val(s, k), y = val(s, k), w = gen::weight_value(s, wp, false, false); int how = (int)s.draw(6); a(x, weight = w, covariate1 = y); ++n; log += " " + show(x) + "*" + show(w) + "," + show(y) + " form " + show(how);
        switch(how) { case 0: b(x, covariate1 = y, weight = w); break; case 1: b(sample = x, covariate1 = y, weight = w); break; case 2: b(weight = w, sample = x, covariate1 = y); break; case 3: b(covariate1 = y, weight = w, sample = x); break; case 4: b(weight = double(w), covariate1 = double(y), sample = double(x)); break; default: b(x, covariate2 = 5., weight = w, covariate1 = y); }
        agree(s, log, "sum", "another form of push", sum(b), sum(a)); agree(s, log, "mean", "another form of push", mean(b), mean(a)); agree(s, log, "variance", "another form of push", variance(b), variance(a)); agree(s, log, "covariance", "another form of push", covariance(b), covariance(a)); agree(s, log, "sum_of_weights", "another form of push", sum_of_weights(b), sum_of_weights(a));
    }
    s.note(log); if(n >= 3) s.nontrivial();
}
// ---- the initial value given to the constructor starts the sums and nothing else
template<class T> void initial(Src &s)
{
    typedef accumulator_set<T, stats<tag::sum, tag::min, tag::max, tag::count> > set; T v = (T)s.signedint(50); set a(v), b(sample = v), c(sample = T(v)), z; std::size_t n = 0; T t = 0; std::string log = "initial " + show((double)v) + ":";
    if(sum(a) != v || sum(b) != v || sum(c) != v || sum(z) != 0 || count(a) != 0 || count(b) != 0) { s.note(log); fail("an empty set does not report the initial value as its sum"); }
    while(n < 20 && s.more(6)) { T x = (T)s.signedint(100); a(x); b(x); c(x); z(x); t += x; ++n; log += " " + show((double)x); if(sum(a) != v + t || sum(b) != v + t || sum(c) != v + t || sum(z) != t || count(a) != n || (min)(a) != (min)(z) || (max)(a) != (max)(z) || (min)(b) != (min)(z) || (max)(c) != (max)(z)) { s.note(log); fail("sums " + show((double)sum(a)) + ", " + show((double)sum(b)) + ", " + show((double)sum(c)) + " and " + show((double)sum(z)) + " without initial value, expected " + show((double)(v + t)) + " and " + show((double)t)); } }
    s.note(log); if(n >= 2 && v != 0) s.nontrivial();
}
PBT(initial_int, 1, "two or more samples after a nonzero initial value") { initial<int>(s); }
PBT(initial_double, 1, "two or more samples after a nonzero initial value") { initial<double>(s); }
PBT(initial_long, 1, "two or more samples after a nonzero initial value") { initial<long>(s); }
// ---- the order of construction arguments
PBT(construct_order, 1, "five or more samples")
{
    typedef accumulator_set<double, stats<tag::tail<left>, tag::rolling_mean, tag::density, tag::p_square_quantile, tag::extended_p_square> > set; std::size_t c = 1 + s.draw(5), w = 1 + s.draw(5), dc = 2 + s.draw(4), nb = 1 + s.draw(5); double p = (1 + (double)s.draw(9)) / 10; std::vector<double> pr; pr.push_back(0.25); pr.push_back(0.75); int k = (int)s.draw(3); std::size_t n = 0;
    std::string log = "cache " + show(c) + " window " + show(w) + " density " + show(dc) + "/" + show(nb) + " p " + show(p) + ":";
    set a(tag::tail<left>::cache_size = c, tag::rolling_window::window_size = w, tag::density::cache_size = dc, tag::density::num_bins = nb, quantile_probability = p, tag::extended_p_square::probabilities = pr), b(tag::extended_p_square::probabilities = pr, quantile_probability = p, tag::density::num_bins = nb, tag::density::cache_size = dc, tag::rolling_window::window_size = w, tag::tail<left>::cache_size = c), d(rolling_window_size = w, extended_p_square_probabilities = pr, left_tail_cache_size = c, density_cache_size = dc, quantile_probability = p, density_num_bins = nb);
    while(n < 40 && s.more(10)) { double x = val(s, k); a(x); b(x); d(x); ++n; log += " " + show(x); }
    set *o[] = { &b, &d };
    for(set *q : o)
    {
        auto ta = tail(a), tb = tail(*q); std::vector<double> va(ta.begin(), ta.end()), vb(tb.begin(), tb.end()); if(va != vb || va.size() != std::min(c, n)) { s.note(log); fail("tail differs: " + showv(va) + " and " + showv(vb)); } if(!n) continue;
        agree(s, log, "rolling_mean", "another argument order", rolling_mean(*q), rolling_mean(a)); if(n >= 5) { agree(s, log, "p_square_quantile", "another argument order", p_square_quantile(*q), p_square_quantile(a)); for(int i = 0; i < 2; ++i) if(n >= 7) agree(s, log, "extended_p_square", "another argument order", extended_p_square(*q)[i], extended_p_square(a)[i]); }
        if(n >= dc) { auto ha = density(a), hb = density(*q); if(ha.size() != (std::ptrdiff_t)(nb + 2) || hb.size() != ha.size()) { s.note(log); fail("number of bins"); } for(std::ptrdiff_t i = 0; i < ha.size(); ++i) { agree(s, log, "density", "another argument order", ha[i].second, hb[i].second); agree(s, log, "density bin", "another argument order", ha[i].first, hb[i].first); } }
    }
    s.note(log); if(n >= 5) s.nontrivial();
}
