// the statistics that take parameters, made droppable: order statistics, P^2 family, histograms, peaks over threshold,
// rolling windows, variates
#include "../kits.hpp"
using namespace boost::accumulators; using namespace pbt;
namespace pdrop {
using kits::Out; using kits::In; using kits::Par;
template<class Set> Set make(Par const &p, bool first)
{
    if(first) return Set(0., tag::tail<left>::cache_size = p.cache, tag::tail<right>::cache_size = p.cache, pot_threshold_value = p.thr, pot_threshold_probability = p.thrp, density_cache_size = p.cache, density_num_bins = p.bins
      , p_square_cumulative_distribution_num_cells = p.cells, extended_p_square_probabilities = p.probs, quantile_probability = p.p, rolling_window_size = p.win);
    return Set(tag::tail<left>::cache_size = p.cache, tag::tail<right>::cache_size = p.cache, pot_threshold_value = p.thr, pot_threshold_probability = p.thrp, density_cache_size = p.cache, density_num_bins = p.bins
      , p_square_cumulative_distribution_num_cells = p.cells, extended_p_square_probabilities = p.probs, quantile_probability = p.p, rolling_window_size = p.win);
}
template<class A> void push(A &a, In const &i, std::true_type) { a(i.x, weight = i.w, covariate1 = i.c); }
template<class A> void push(A &a, In const &i, std::false_type) { a(i.x, covariate1 = i.c); }
template<class A, class F> Out ask(A const &a, double q) { Out o; kits::put(o, extract_result<F>(a, quantile_probability = q)); return o; }
template<class A, class F> void drop(A &a) { a.template drop<typename as_feature<F>::type>(); }
// F...: features, all droppable. Until the first drop the set agrees with one that is not droppable; a feature not yet dropped
// keeps agreeing; a drop changes no value; once everything has been dropped nothing changes.
template<class W, class... F> void run(Src &s)
{
    typedef accumulator_set<double, stats<droppable<F>...>, W> D; typedef accumulator_set<double, stats<F...>, W> R; typedef std::integral_constant<bool, !std::is_void<W>::value> weighted; int const n = sizeof...(F);
    Par p = kits::params(s); kits::Feed f = kits::feed(s, true); std::size_t ready = std::max(std::max(p.cache, p.cells + 1), 2 * p.probs.size() + 3); bool first = s.flip(); D d = make<D>(p, first); R r = make<R>(p, s.flip());
    Out (*dv[])(D const &, double) = { &ask<D, F>... }; Out (*rv[])(R const &, double) = { &ask<R, F>... }; void (*dr[])(D &) = { &drop<D, F>... };
    double q = kits::qprob(s); std::vector<char> gone(n, 0); int left_ = n; std::vector<Out> frozen; std::vector<In> in; std::string log; std::size_t after = 0;
    for(std::size_t t = 0; t < ready + 1 || (t < ready + 60 && s.more(25)); ++t)
    {
        In i = f.next(s); in.push_back(i); push(d, i, weighted()); push(r, i, weighted()); if(left_ < n) ++after; if(t + 1 < ready) continue;
        for(int k = 0; k < n; ++k)
        {
            Out g = dv[k](d, q);
            if(!gone[k]) { Out w = rv[k](r, q); if(!kits::identical(g, w)) { s.note(kits::showp(p) + " " + kits::showi(in) + log); fail("feature " + show(k) + ", q=" + show(q) + ", droppable and not dropped: got " + showv(g) + ", in a set that is not droppable " + showv(w)); } }
            if(!left_ && !kits::identical(g, frozen[k])) { s.note(kits::showp(p) + " " + kits::showi(in) + log); fail("feature " + show(k) + ", q=" + show(q) + " changed after everything was dropped: " + showv(g) + ", was " + showv(frozen[k])); }
        }
        if(left_ && s.chance(1, 5)) { int u = (int)s.draw(n); if(!gone[u]) { Out b = dv[u](d, q); dr[u](d); gone[u] = 1; --left_; log += " drop(" + show(u) + " after " + show(t + 1) + ")"; CHECK_MSG(kits::identical(b, dv[u](d, q)), "dropping does not change the value of feature " + show(u)); if(!left_) for(int k = 0; k < n; ++k) frozen.push_back(dv[k](d, q)); } }
    }
    s.note(kits::showp(p) + " " + kits::showi(in) + log); if(after) s.nontrivial(); if(!left_) s.label("everything dropped");
}
}
#define PDROP(NAME, ...) PBT(NAME, 1, "a sample arrived after a feature was dropped") { pdrop::run<__VA_ARGS__>(s); }
