#include "P04.hpp"
template<class T> void plain(Src &s)
{
    std::vector<T> v = hard<T>(s); accumulator_set<T, features<tag::sum_kahan> > a; accumulator_set<T, features<tag::sum(kahan)> > b; Q ex = 0, ab = 0; T naive = 0; bool gain = false; std::size_t i = 0;
    for(T x : v)
    {
        a(x); b(x); ex += x; ab += qabs(x); naive += x; ++i;
        if(i > 40 && i % 97 && i != v.size()) continue;
        if(!kahan_ok<T>(sum_kahan(a), ex, ab, i, 0)) fail("sum_kahan after " + show(i) + " samples: got " + show((double)sum_kahan(a)) + " exact " + show((double)ex) + " sum of |x| " + show((double)ab));
        CHECK_EQ(sum(b), sum_kahan(a), "sum(kahan) is sum_kahan");
        if(!kahan_ok<T>(naive, ex, ab, i, 0)) gain = true;
    }
    if(gain) { s.nontrivial(); s.label("plain summation breaks the bound"); }
}
PBT(kahan_double, 3, "a plain running sum violates the bound on this stream") { plain<double>(s); }
PBT(kahan_float, 3, "a plain running sum violates the bound on this stream") { plain<float>(s); }
// copies carry the whole state: continuing on a copy or an assigned set keeps the bound
PBT(kahan_copied, 1, "a plain running sum violates the bound on this stream")
{
    std::vector<float> v = hard<float>(s); typedef accumulator_set<float, features<tag::sum_kahan> > A; A a; Q ex = 0, ab = 0; float naive = 0; std::size_t period = 1 + s.draw(20);
    for(std::size_t i = 0; i < v.size(); ++i) { if(i % period == 0) { A c(a); A d; d(1.f); d = c; a = d; } a(v[i]); ex += v[i]; ab += qabs(v[i]); naive += v[i]; }
    if(!kahan_ok<float>(sum_kahan(a), ex, ab, v.size(), 0)) fail("sum_kahan continued on copies: got " + show((double)sum_kahan(a)) + " exact " + show((double)ex));
    if(!kahan_ok<float>(naive, ex, ab, v.size(), 0)) s.nontrivial();
}
// statistics built on the sum use the compensated one when that is the sum of the set
PBT(kahan_mean, 1, "a plain running sum violates the bound on this stream")
{
    std::vector<float> v = hard<float>(s); accumulator_set<float, features<tag::sum(kahan), tag::mean> > a; Q ex = 0, ab = 0; float naive = 0; std::size_t n = 0; bool gain = false;
    for(float x : v) { a(x); ex += x; ab += qabs(x); naive += x; ++n; if(n > 20 && n % 97 && n != v.size()) continue; if(!kahan_ok<float>(naive, ex, ab, n, 1)) gain = true; if(!kahan_ok<float>((float)((Q)mean(a) * n), ex, ab, n, 3)) fail("mean from the compensated sum after " + show(n) + ": got " + show((double)mean(a)) + " exact " + show((double)(ex / n))); }
    if(gain) s.nontrivial();
}
