#include "P04.hpp"
template<class T> void wkahan(Src &s)
{
    std::vector<T> v = hard<T>(s), w, y = v; int wk = (int)s.draw(5); std::uint64_t r = s.draw(1000000); s.note("weights kind " + show(wk) + " seed " + show(r));
    for(std::size_t i = 0; i < v.size(); ++i) w.push_back(wk == 0 ? T(1) : wk == 1 ? (T)(0.1 + (splitmix(r) % 1000) / 999.0) : wk == 2 ? (T)(1 + splitmix(r) % 4) : wk == 3 ? (T)(splitmix(r) % 3) : (T)std::ldexp(1.0 + (splitmix(r) % 7), (int)(splitmix(r) % 30) - 15));
    accumulator_set<T, features<tag::weighted_sum_kahan, tag::sum_of_weights_kahan>, T> a; accumulator_set<T, features<tag::weighted_sum(kahan), tag::sum_of_weights(kahan)>, T> b;
    accumulator_set<T, features<tag::weighted_sum_of_variates_kahan<T, tag::covariate1> >, T> c; accumulator_set<T, features<tag::sum_of_variates_kahan<T, tag::covariate1> > > d;
    Q ex = 0, ab = 0, sw = 0, ey = 0, ay = 0; T naive = 0, nw = 0; bool gain = false, wgain = false; std::size_t i = 0;
    for(; i < v.size(); ++i)
    {
        a(v[i], weight = w[i]); b(v[i], weight = w[i]); c(T(3), weight = w[i], covariate1 = y[i]); d(T(7), covariate1 = y[i]);
        ex += (Q)v[i] * w[i]; ab += qabs((Q)v[i] * w[i]); sw += w[i]; ey += y[i]; ay += qabs(y[i]); naive += v[i] * w[i]; nw += w[i]; std::size_t k = i + 1;
        if(k > 40 && k % 97 && k != v.size()) continue;
        if(!kahan_ok<T>(weighted_sum_kahan(a), ex, ab, k, 1)) fail("weighted_sum_kahan after " + show(k) + ": got " + show((double)weighted_sum_kahan(a)) + " exact " + show((double)ex));
        if(!kahan_ok<T>(sum_of_weights_kahan(a), sw, sw, k, 0)) fail("sum_of_weights_kahan after " + show(k) + ": got " + show((double)sum_of_weights_kahan(a)) + " exact " + show((double)sw));
        if(!kahan_ok<T>(extract_result<tag::weighted_sum_of_variates_kahan<T, tag::covariate1> >(c), ex, ab, k, 1)) fail("weighted_sum_of_variates_kahan after " + show(k));
        if(!kahan_ok<T>(extract_result<tag::sum_of_variates_kahan<T, tag::covariate1> >(d), ey, ay, k, 0)) fail("sum_of_variates_kahan after " + show(k));
        CHECK_EQ(weighted_sum(b), weighted_sum_kahan(a), "weighted_sum(kahan)"); CHECK_EQ(sum_of_weights(b), sum_of_weights_kahan(a), "sum_of_weights(kahan)");
        if(!kahan_ok<T>(naive, ex, ab, k, 1)) gain = true; if(!kahan_ok<T>(nw, sw, sw, k, 0)) wgain = true;
    }
    if(gain) { s.nontrivial(); s.label("plain weighted summation breaks the bound"); } if(wgain) s.label("plain summation of weights breaks the bound");
}
PBT(wkahan_double, 2, "a plain running sum violates the bound on this stream") { wkahan<double>(s); }
PBT(wkahan_float, 3, "a plain running sum violates the bound on this stream") { wkahan<float>(s); }
// weighted sums continued on copies
PBT(wkahan_copied, 1, "a plain running sum violates the bound on this stream")
{
    std::vector<float> v = hard<float>(s); typedef accumulator_set<float, features<tag::weighted_sum_kahan, tag::sum_of_weights_kahan, tag::weighted_sum_of_variates_kahan<float, tag::covariate1> >, float> A; A a; Q ex = 0, ab = 0, sw = 0; float naive = 0; std::size_t period = 1 + s.draw(20); std::uint64_t r = s.draw(1000000);
    for(std::size_t i = 0; i < v.size(); ++i) { if(i % period == 0) { A c(a); A d; d(1.f, weight = 2.f, covariate1 = 3.f); d = c; a = d; } float w = 0.1f + (float)(splitmix(r) % 100) / 99; a(v[i], weight = w, covariate1 = v[i]); ex += (Q)v[i] * w; ab += qabs((Q)v[i] * w); sw += w; naive += v[i] * w; }
    if(!kahan_ok<float>(weighted_sum_kahan(a), ex, ab, v.size(), 1)) fail("weighted_sum_kahan continued on copies: got " + show((double)weighted_sum_kahan(a)) + " exact " + show((double)ex)); if(!kahan_ok<float>(sum_of_weights_kahan(a), sw, sw, v.size(), 0)) fail("sum_of_weights_kahan continued on copies");
    if(!kahan_ok<float>(extract_result<tag::weighted_sum_of_variates_kahan<float, tag::covariate1> >(a), ex, ab, v.size(), 1)) fail("weighted_sum_of_variates_kahan continued on copies");
    if(!kahan_ok<float>(naive, ex, ab, v.size(), 1)) s.nontrivial();
}
