// Property-based testing engine used by every check in /verif.
//
// A case is a pure function of a finite sequence of bounded integers (the "choice sequence").
// Random generation records the sequence; shrinking edits it; a replay file stores it.
// All randomness of a property goes through pbt::Src.
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <algorithm>
#include <type_traits>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

inline std::uint64_t splitmix(std::uint64_t &s)
{
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

class Src
{
public:
    enum Mode { Random, Replay, Bytes };
    static std::size_t const max_choices = 400000;

    explicit Src(std::uint64_t seed) : mode_(Random), rng_(seed), pos_(0), data_(0), size_(0) { init(); }
    explicit Src(std::vector<std::uint64_t> const &c) : mode_(Replay), rng_(0), pos_(0), in_(c), data_(0), size_(0) { init(); }
    Src(unsigned char const *d, std::size_t n) : mode_(Bytes), rng_(0), pos_(0), data_(d), size_(n) { init(); }

    // uniform integer in [0, n); 0 is the simplest value. n >= 1
    std::uint64_t draw(std::uint64_t n)
    {
        if(n <= 1) return 0;
        std::uint64_t v = 0;
        switch(mode_)
        {
        case Random: v = splitmix(rng_) % n; break;
        case Replay: v = pos_ < in_.size() ? std::min(in_[pos_], n - 1) : 0; ++pos_; break;
        case Bytes:
            {
                int need = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ULL << 32) ? 4 : 8;
                for(int i = 0; i < need; ++i) { v = (v << 8) | (pos_ < size_ ? data_[pos_] : 0); ++pos_; }
                v %= n;
            }
            break;
        }
        if(out_.size() >= max_choices) throw Discard();
        out_.push_back(v);
        if(mirror_) { mirror_[out_.size()] = v; mirror_[0] = out_.size(); }
        return v;
    }

    // integer in [lo, hi], shrinking towards lo
    long long integer(long long lo, long long hi)
    {
        return lo + (long long)draw((std::uint64_t)(hi - lo) + 1);
    }
    // integer in [-m, m], shrinking towards 0, positive before negative
    long long signedint(long long m)
    {
        std::uint64_t v = draw(2 * (std::uint64_t)m + 1);
        long long a = (long long)((v + 1) / 2);
        return (v & 1) ? a : -a;
    }
    bool flip() { return draw(2) == 1; }
    // true with probability num/den (shrinks to false)
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    template<class T> T const &pick(std::vector<T> const &v) { return v[draw(v.size())]; }
    template<class T, std::size_t N> T const &pick(T const (&v)[N]) { return v[draw(N)]; }
    // "one more element?" with expected length mean; designed so that deleting the element's choices
    // (flag included) deletes the element.
    bool more(unsigned mean) { return draw(mean + 1) != 0; }

    void label(char const *l) { if(counting_) labels_.push_back(l); }
    void nontrivial() { nontrivial_ = true; }
    void note(std::string const &s) { if(noting_) notes_ += (notes_.empty() ? "" : "; ") + s; }
    bool noting() const { return noting_; }

    // engine side
    void set_mirror(std::uint64_t volatile *m) { mirror_ = m; if(m) m[0] = 0; }
    void set_noting(bool b) { noting_ = b; }
    bool is_nontrivial() const { return nontrivial_; }
    std::vector<std::uint64_t> const &choices() const { return out_; }
    std::vector<char const *> const &labels() const { return labels_; }
    std::string const &notes() const { return notes_; }
    bool exhausted() const { return mode_ == Bytes ? pos_ > size_ : false; }

private:
    void init() { nontrivial_ = false; noting_ = false; counting_ = true; mirror_ = 0; }
    Mode mode_;
    std::uint64_t rng_;
    std::size_t pos_;
    std::vector<std::uint64_t> in_;
    unsigned char const *data_;
    std::size_t size_;
    std::vector<std::uint64_t> out_;
    std::vector<char const *> labels_;
    std::string notes_;
    bool nontrivial_, noting_, counting_;
    std::uint64_t volatile *mirror_; // survives a crash of the case (shared memory)
};

typedef void (*TestFn)(Src &);
struct Test
{
    char const *name;
    TestFn fn;
    double weight;      // share of the case budget
    char const *rule;   // what counts as non-trivial
    Test(char const *n, TestFn f, double w, char const *r);
};
std::vector<Test *> &registry();

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PBT(name, weight, rule) { body using Src &s }
#define PBT(NAME, WEIGHT, RULE)                                                   \
    static void pbt_fn_##NAME(pbt::Src &);                                        \
    static pbt::Test pbt_reg_##NAME(#NAME, &pbt_fn_##NAME, WEIGHT, RULE);         \
    static void pbt_fn_##NAME(pbt::Src &s)

template<class T> std::string show(T const &t)
{
    std::ostringstream o; o.precision(std::numeric_limits<double>::max_digits10); o << t; return o.str();
}
inline std::string show(long double t)
{
    char b[64]; std::snprintf(b, sizeof b, "%.21Lg", t); return b;
}
template<class C> std::string showv(C const &c)
{
    std::ostringstream o; o.precision(std::numeric_limits<double>::max_digits10);
    o << "["; bool f = true; std::size_t n = 0;
    for(auto const &x : c) { if(!f) o << ", "; f = false; if(++n > 60) { o << "..."; break; } o << +x; }
    o << "]"; return o.str();
}

[[noreturn]] inline void fail(std::string const &m) { throw Failure{m}; }

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define PBT_HERE (std::string(__FILE__).substr(std::string(__FILE__).rfind('/') + 1) + ":" PBT_STR(__LINE__))
#define CHECK_MSG(cond, msg) do { if(!(cond)) pbt::fail(PBT_HERE + ": " + std::string(msg)); } while(0)
#define CHECK(cond) CHECK_MSG(cond, "expected " #cond)
#define CHECK_EQ(a, b, what) do { auto const &pbt_a = (a); auto const &pbt_b = (b);              \
    if(!(pbt_a == pbt_b)) pbt::fail(PBT_HERE + ": " + std::string(what) + ": got " + pbt::show(pbt_a) + " (" #a "), expected " + pbt::show(pbt_b)); } while(0)
// |a-b| <= tol. NaN never passes.
#define CHECK_NEAR(a, b, tol, what) do { long double pbt_a = (a), pbt_b = (b), pbt_t = (tol);    \
    if(!(fabsl(pbt_a - pbt_b) <= pbt_t)) pbt::fail(PBT_HERE + ": " + std::string(what) + ": got " + pbt::show(pbt_a) + " (" #a "), expected " + pbt::show(pbt_b) + " +- " + pbt::show(pbt_t)); } while(0)

// bitwise-ish identity, NaN equals NaN
template<class T> bool same(T const &a, T const &b) { return a == b || (a != a && b != b); }
#define CHECK_SAME(a, b, what) do { auto const &pbt_a = (a); auto const &pbt_b = (b);            \
    if(!pbt::same(pbt_a, pbt_b)) pbt::fail(PBT_HERE + ": " + std::string(what) + ": " + pbt::show(pbt_a) + " (" #a ") differs from " + pbt::show(pbt_b) + " (" #b ")"); } while(0)

} // namespace pbt
#endif
