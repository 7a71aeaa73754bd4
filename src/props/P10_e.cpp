#include "P10_desc.hpp"
#include <deque>
#include <boost/array.hpp>
// interpolation for integer samples; a linear grid of one or two probabilities; lists of probabilities of other kinds
template<class T> void interpolated_int(Src &s)
{
    bool dy; std::vector<double> p = grid(s, dy, 1); bool const quad = p.size() >= 3; auto st = gen::stream<T>(s, 1000, 2 * p.size() + 3, 300, psq_len(s)); bool wt = s.flip(); gen::WProfile wp = gen::wprofile(s, false); std::vector<double> w = gen::weights<double>(s, st.v.size(), wp, false); s.note("probabilities " + showv(p) + " samples " + showv(st.v) + (wt ? " weights " + showv(w) : ""));
    accumulator_set<T, stats<tag::extended_p_square_quantile> > l(extended_p_square_probabilities = p); accumulator_set<T, stats<tag::weighted_extended_p_square_quantile>, double> wl(extended_p_square_probabilities = p); accumulator_set<T, stats<tag::extended_p_square_quantile_quadratic> > q(extended_p_square_probabilities = p); accumulator_set<T, stats<tag::weighted_extended_p_square_quantile_quadratic>, double> wq(extended_p_square_probabilities = p);
    for(std::size_t i = 0; i < st.v.size(); ++i) { T x = st.v[i]; l(x); q(x); wl(x, weight = w[i]); wq(x, weight = w[i]); }
    bool in = false; std::vector<double> h = wt ? heights_of(wl, weighted_extended_p_square) : heights_of(l, extended_p_square);
    for(int r = 0; r < 6; ++r)
    {
        double z = s.draw(3) == 0 ? p[s.draw(p.size())] : p.front() + (p.back() - p.front()) * gen::real01(s); if(s.draw(8) == 7) z = gen::real01(s); std::string at = " at probability " + show(z); double e = wt ? (double)quantile(wl, quantile_probability = z) : (double)quantile(l, quantile_probability = z);
        if(z < p.front() || z > p.back()) { CHECK_MSG(std::isnan(e), "linear outside the grid is not a number" + at); if(quad) { double f = wt ? (double)quantile(wq, quantile_probability = z) : (double)quantile(q, quantile_probability = z); CHECK_MSG(std::isnan(f), "quadratic outside the grid is not a number" + at); } s.label("outside the grid"); continue; }
        LD x, amp; in = true; if(interp(p, h, z, false, x, amp)) CHECK_NEAR(e, x, amp, "linear" + at); if(quad && interp(p, h, z, true, x, amp)) { double f = wt ? (double)quantile(wq, quantile_probability = z) : (double)quantile(q, quantile_probability = z); CHECK_NEAR(f, x, amp, "quadratic" + at); }
    }
    if(p.size() == 1) s.label("one probability"); if(p.size() == 2) s.label("two probabilities"); if(wt) s.label("weighted"); if(in) s.nontrivial();
}
PBT(interpolated_int, 1, "a probability inside the grid") { interpolated_int<int>(s); }
PBT(interpolated_unsigned, 0.5, "a probability inside the grid") { interpolated_int<unsigned>(s); }
PBT(probability_lists, 0.5, "nine or more samples")
{
    double const a = (double)s.integer(1, 20) / 64, b = (double)s.integer(21, 40) / 64, c = (double)s.integer(41, 63) / 64; std::vector<double> p; p.push_back(a); p.push_back(b); p.push_back(c); std::deque<double> d(p.begin(), p.end()); boost::array<double, 3> r = { { a, b, c } }; std::vector<float> f(p.begin(), p.end()); auto st = gen::stream<double>(s, 0, 9, 200, 30); s.note("probabilities " + showv(p) + " samples " + showv(st.v));
    typedef accumulator_set<double, stats<tag::extended_p_square_quantile> > A; typedef accumulator_set<double, stats<tag::weighted_extended_p_square>, double> W; A a1(extended_p_square_probabilities = p), a2(extended_p_square_probabilities = d), a3(extended_p_square_probabilities = r), a4(extended_p_square_probabilities = f); W w1(extended_p_square_probabilities = p), w2(extended_p_square_probabilities = d), w3(tag::weighted_extended_p_square::probabilities = r);
    d.clear(); f.clear(); r[1] = 0.9; // the sets keep their own list
    for(double x : st.v) { a1(x); a2(x); a3(x); a4(x); w1(x, weight = 2.); w2(x, weight = 2.); w3(x, weight = 2.); }
    std::vector<double> h = heights_of(a1, extended_p_square), g = heights_of(w1, weighted_extended_p_square); CHECK_MSG(heights_of(a2, extended_p_square) == h && heights_of(a3, extended_p_square) == h && heights_of(a4, extended_p_square) == h, "estimates do not depend on the kind of list"); CHECK_MSG(heights_of(w2, weighted_extended_p_square) == g && heights_of(w3, weighted_extended_p_square) == g, "weighted estimates do not depend on the kind of list");
    double z = a + (c - a) * gen::real01(s); CHECK_SAME((double)quantile(a1, quantile_probability = z), (double)quantile(a3, quantile_probability = z), "interpolated quantile"); s.nontrivial();
}
