// A feature taken from another set, named at extraction: the result combines what this set has seen with what the named set has
// seen, at the moment of extraction, whichever set is named.
#include "P19.hpp"
PBT(named_sum, 3, "two sources with different sums, one consumer, both sampled")
{
    typedef accumulator_set<double, stats<tag::sum, tag::max> > S1; typedef accumulator_set<double, stats<tag::mean, tag::external<tag::sum, my::tag::src>, tag::min> > C;
    S1 src[2]; C acc[2]; std::vector<double> xs[2], ys[2]; int k = (int)s.draw(3); std::string log; std::size_t ops = 0, got = 0;
    while(ops < 300 && s.more(40))
    {
        ++ops;
        switch(s.draw(3))
        {
        case 0: { int j = (int)s.draw(2); double x = val(s, k); src[j](x); xs[j].push_back(x); log += " source" + show(j) + "(" + show(x) + ")"; break; }
        case 1: { int j = (int)s.draw(2); double x = val(s, k); acc[j](x); ys[j].push_back(x); log += " set" + show(j) + "(" + show(x) + ")"; break; }
        default:
            {
                int j = (int)s.draw(2), i = (int)s.draw(2); if(ys[i].empty()) break; log += " extract(" + show(i) + " with source" + show(j) + ")"; s.note("");
                try {
                near("mean", mean(acc[i], my::src = src[j]), tot(xs[j]) / ys[i].size(), mag(xs[j]), xs[j].size()); near("sum", sum(acc[i], my::src = src[j]), tot(xs[j]), mag(xs[j]), xs[j].size());
                if(count(acc[i]) != ys[i].size()) fail("count is " + show(count(acc[i]))); if((min)(acc[i]) != *std::min_element(ys[i].begin(), ys[i].end())) fail("min is " + show((min)(acc[i])));
                } catch(Failure &) { s.note(log); throw; }
                if(!xs[0].empty() && !xs[1].empty()) ++got;
            }
        }
    }
    s.note(log); if(got) s.nontrivial();
}
PBT(named_mean_count, 2, "extracted after both sets were sampled")
{   // two externals from two different sets
    typedef accumulator_set<double, stats<tag::mean(immediate)> > M; typedef accumulator_set<int, stats<tag::count> > N; typedef accumulator_set<double, stats<tag::lazy_variance, tag::external<tag::mean, my::tag::src>, tag::moment<2> > > V; typedef accumulator_set<double, stats<tag::mean, tag::external<tag::count, my::tag::src2> > > Q;
    M m; N n; V v; Q q; std::vector<double> ms, vs, qs; std::size_t nc = 0, ops = 0, got = 0; int k = (int)s.draw(3); std::string log;
    while(ops < 300 && s.more(40))
    {
        ++ops; double x = val(s, k);
        switch(s.draw(5))
        {
        case 0: m(x); ms.push_back(x); log += " m(" + show(x) + ")"; break; case 1: n(1); ++nc; log += " n()"; break; case 2: v(x); vs.push_back(x); log += " v(" + show(x) + ")"; break; case 3: q(x); qs.push_back(x); log += " q(" + show(x) + ")"; break;
        default:
            try {
                if(!ms.empty() && !vs.empty()) { LD m2 = 0; for(double y : vs) m2 += (LD)y * y; m2 /= vs.size(); LD mu = tot(ms) / ms.size(); near("variance", variance(v, my::src = m), m2 - mu * mu, m2 + mu * mu + 1 + powl(gen::maxabs(ms), 2), ms.size() + vs.size()); near("mean", mean(v, my::src = m), mu, 1 + gen::maxabs(ms), ms.size()); ++got; }
                if(nc && !qs.empty()) { near("mean", mean(q, my::src2 = n), tot(qs) / nc, mag(qs), qs.size()); if((std::size_t)count(q, my::src2 = n) != nc) fail("count taken from the other set is " + show(count(q, my::src2 = n))); ++got; }
            } catch(Failure &) { s.note(log); throw; }
        }
    }
    s.note(log); if(got) s.nontrivial();
}
