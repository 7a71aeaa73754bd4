#include "P11_desc.hpp"
PBT(cumulative_accuracy, 0.2, "500 or more samples")
{
    std::size_t b = 2 + s.draw(20); psq::Dist D = psq::dist(s); std::size_t n = 500 + s.draw(1500); std::uint64_t st = s.draw(1ULL << 40); bool wt = s.flip(); s.note("cells " + show(b) + " n " + show(n) + " distribution " + show(D.kind));
    accumulator_set<double, stats<tag::p_square_cumulative_distribution, tag::median(with_p_square_cumulative_distribution)> > a(p_square_cumulative_distribution_num_cells = b); accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution, tag::weighted_median(with_p_square_cumulative_distribution)>, double> w(p_square_cumulative_distribution_num_cells = b); std::vector<double> v;
    for(std::size_t i = 0; i < n; ++i) { double x = D.q(psq::u01(st)); v.push_back(x); a(x); w(x, weight = wt ? 0.5 + psq::u01(st) : 1.0); } std::sort(v.begin(), v.end());
    LD e = 0.06 + 3 / std::sqrt((double)n);
    for(int k = 0; k < 2; ++k) { Cdf c = k ? cdf_of(weighted_p_square_cumulative_distribution(w)) : cdf_of(p_square_cumulative_distribution(a)); for(std::size_t i = 0; i <= b; ++i) { LD f = (LD)(std::upper_bound(v.begin(), v.end(), (double)c[i].first) - v.begin()) / n; CHECK_NEAR(c[i].second, f, e, std::string(k ? "weighted " : "") + "ordinate " + show(i) + " against the empirical distribution"); CHECK_NEAR(c[i].second, (LD)i / b, 0.05L + 2.0L * b / n, std::string(k ? "weighted " : "") + "cells are equiprobable"); } }
    s.nontrivial();
}
