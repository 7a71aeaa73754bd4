// Operations that fail: an allocation fails in the middle of a construction, copy, assignment, question or sample; an archive ends early.
#define KITS_ARCHIVE
#include "../kits.hpp"
#include <sstream>
using namespace kits; using namespace pbt;
extern thread_local long mem_live, mem_fail; // P26_new.cpp
struct Arm { Arm(long n) { mem_fail = n; } ~Arm() { mem_fail = -1; } };
struct Step { int op; std::size_t k, w; double q; };
struct Plan { Par p, op; std::vector<In> in, other; std::vector<Step> step; std::size_t first; };
template<class K> void compare(typename K::set const &a, typename K::set const &b, double q, std::string &bad, char const *what)
{
    for(std::size_t i = 0; i < K::list().size() && bad.empty(); ++i) { Out x = ask<K>(a, i, q), y = ask<K>(b, i, q); if(!identical(x, y)) bad = std::string(K::name()) + ": " + K::list()[i].first + " q=" + show(q) + " " + what + " is " + showv(x) + ", expected " + showv(y); }
}
template<class S> std::string save(S const &a, bool text) { std::ostringstream o; if(text) { boost::archive::text_oarchive oa(o); oa << a; } else { boost::archive::binary_oarchive oa(o); oa << a; } return o.str(); }
template<class S> void load(S &a, std::string const &b, bool text) { std::istringstream i(b); if(text) { boost::archive::text_iarchive ia(i); ia >> a; } else { boost::archive::binary_iarchive ia(i); ia >> a; } }
// one life of some sets; failed: how many operations failed for want of memory
template<class K> void life(Plan const &l, std::string &bad, std::size_t (&failed)[9])
{
    typedef typename K::set set; std::size_t const ready = std::max<std::size_t>(1, K::ready(l.p)); typename K::set a(K::make(l.p)), twin(K::make(l.p)), other(K::make(l.op)); std::size_t n = 0; for(; n < l.first; ++n) { K::push(a, l.in[n]); K::push(twin, l.in[n]); } for(In const &i : l.other) K::push(other, i);
    for(Step const &t : l.step)
    {
        if(!bad.empty()) return; bool const ask_ok = n >= ready;
        switch(t.op)
        {
        case 0: if(n < l.in.size()) { K::push(a, l.in[n]); K::push(twin, l.in[n]); ++n; } break;
        case 1: if(ask_ok) { Out o; o.reserve(400); { Arm g((long)t.k); try { K::list()[t.w % K::list().size()].second(a, t.q, o); } catch(std::bad_alloc const &) { ++failed[1]; } } compare<K>(a, twin, t.q, bad, "after a question that failed"); } break;
        case 2: { { Arm g((long)t.k); try { set b(a); } catch(std::bad_alloc const &) { ++failed[2]; } } if(ask_ok) compare<K>(a, twin, t.q, bad, "after a copy that failed"); } break;
        case 3: { set c(other); { Arm g((long)t.k); try { c = a; } catch(std::bad_alloc const &) { ++failed[3]; } } if(ask_ok) compare<K>(a, twin, t.q, bad, "after an assignment from it that failed"); c = a; if(ask_ok) compare<K>(c, twin, t.q, bad, "assigned again after a failed assignment"); } break;
        case 4: { Arm g((long)t.k); try { set b(K::make(l.p)); } catch(std::bad_alloc const &) { ++failed[4]; } } break;
        case 6: { set c(other); bool const text = t.w % 2; { std::string bytes = save(a, text); bytes.resize(bytes.size() * t.k / 50); try { load(c, bytes, text); } catch(std::exception const &) { ++failed[6]; } } if(ask_ok) compare<K>(a, twin, t.q, bad, "after an archive of it that was cut short"); c = a; if(ask_ok) compare<K>(c, twin, t.q, bad, "assigned after an archive that was cut short"); } break;
        case 7: { bool const text = t.w % 2; { Arm g((long)t.k); try { (void)save(a, text); } catch(std::exception const &) { ++failed[7]; } } if(ask_ok) compare<K>(a, twin, t.q, bad, "after an archive of it that failed"); } break;
        case 8: { set c(other); bool const text = t.w % 2; { std::string bytes = save(a, text); Arm g((long)t.k); try { load(c, bytes, text); } catch(std::exception const &) { ++failed[8]; } } c = a; if(ask_ok) compare<K>(c, twin, t.q, bad, "assigned after an archive that could not be read"); } break;
        default: { set b(a); { Arm g((long)t.k); try { K::push(b, l.in[n % l.in.size()]); } catch(std::bad_alloc const &) { ++failed[5]; } } if(ask_ok) compare<K>(a, twin, t.q, bad, "after a sample for its copy that failed"); b = a; if(ask_ok) compare<K>(b, twin, t.q, bad, "assigned after a sample that failed"); } break;
        }
    }
    while(n < l.in.size()) { K::push(a, l.in[n]); K::push(twin, l.in[n]); ++n; } if(n >= ready) compare<K>(a, twin, 0.5, bad, "at the end");
}
template<class K> void faults(Src &s)
{
    Plan l; l.p = params(s); l.op = s.flip() ? params(s) : l.p; Feed f = feed(s, needs_distinct<K>::value); std::size_t ready = std::max<std::size_t>(1, K::ready(l.p)); std::size_t len = s.draw(30) + (s.draw(4) ? ready : 0) + 1; for(std::size_t i = 0; i < len; ++i) l.in.push_back(f.next(s)); std::size_t ol = s.draw(30); Feed g = feed(s, needs_distinct<K>::value); for(std::size_t i = 0; i < ol; ++i) l.other.push_back(g.next(s)); l.first = s.draw(len + 1);
    std::string ops; while(l.step.size() < 25 && s.more(6)) { Step t; t.op = (int)s.draw(9); t.k = s.draw(s.draw(4) ? 8 : 50); t.w = s.draw(16); t.q = qprob(s); l.step.push_back(t); ops += " " + show(t.op) + "/" + show(t.k); }
    s.note(showp(l.p) + " inputs " + showi(l.in) + ", " + show(l.first) + " before the steps (operation/failing allocation):" + ops); K::list(); std::size_t failed[9] = {}; { std::string bad; life<K>(l, bad, failed); CHECK_MSG(bad.empty(), bad); }
    std::size_t again[9] = {}; { std::string none; long before = mem_live; life<K>(l, none, again); long after = mem_live; CHECK_EQ(after - before, 0L, std::string(K::name()) + ": bytes left behind by sets that are gone"); }
    static char const *const names[] = {"", "question failed", "copy failed", "assignment failed", "construction failed", "sample failed", "archive cut short", "writing an archive failed", "reading an archive failed"}; std::size_t sum = 0; for(int i = 1; i < 9; ++i) { if(failed[i]) s.label(names[i]); sum += failed[i]; } if(sum) s.nontrivial();
}
#define FAULTS(K) PBT(faults_##K, 1, "some operation failed for want of memory") { faults<kits::K>(s); }
