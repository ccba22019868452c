// Minimal property-based testing engine (choice-sequence generators, integrated shrinking,
// crash isolation by fork, deterministic replay).  Every random decision of a property goes
// through pbt::Src, so a case is exactly its sequence of choices: shrinking edits the sequence,
// and a replay file stores it.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace pbt
{
    struct Failure { std::string msg; };
    struct Discard { };

    inline uint64_t mix64(uint64_t z)
    {
        z += 0x9E3779B97F4A7C15ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    struct Rng // xorshift-like stream out of splitmix64
    {
        uint64_t s;
        explicit Rng(uint64_t seed) : s{mix64(seed)} {}
        uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
        uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
        double unit() { return double(next() >> 11) * 0x1.0p-53; }
        double range(double a, double b) { return a + (b - a) * unit(); }
    };

    constexpr size_t max_choices = 1u << 16;
    struct Shared // lives in a MAP_SHARED page: survives the death of the worker
    {
        uint64_t arm, index, len, status;
        uint64_t evals, discards;
        char msg[4096];
        char desc[8192];
        uint64_t choice[max_choices];
    };

    class Src
    {
    public:
        Shared *sh;
        const std::vector<uint64_t> *replay{nullptr};
        size_t pos{0};
        Rng rng{0};
        bool nontrivial_{false};
        std::vector<std::string> labels_;
        std::ostringstream desc_;

        explicit Src(Shared *s) : sh{s} { sh->len = 0; }

        // uniform in [0,n); the simplest value is 0
        uint64_t draw(uint64_t n)
        {
            uint64_t v;
            if (n <= 1) n = 1;
            if (replay)
                v = pos < replay->size() ? std::min((*replay)[pos], n - 1) : 0;
            else
                v = n == 1 ? 0 : rng.next() % n;
            pos++;
            if (sh->len < max_choices) sh->choice[sh->len++] = v;
            return v;
        }
        // inclusive range, shrinks towards lo
        int in(int lo, int hi) { return lo + int(draw(uint64_t(hi - lo) + 1)); }
        bool chance(int num, int den) { return draw(den) >= uint64_t(den - num); }
        template <typename V> auto &pick(V &v) { return v[draw(v.size())]; }
        template <typename T> T one_of(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
        // index chosen with weights
        size_t weighted(std::initializer_list<int> w)
        {
            int tot = 0; for (auto x : w) tot += x;
            int r = int(draw(tot)); size_t i = 0;
            for (auto x : w) { if (r < x) return i; r -= x; i++; }
            return w.size() - 1;
        }
        // [0,1): mostly arbitrary bits, sometimes a coarse grid value; shrinks to 0
        double unit()
        {
            if (draw(8) < 2) return double(draw(8)) / 8.;
            return double(draw(1ull << 53)) * 0x1.0p-53;
        }
        double real(double a, double b) { return a + (b - a) * unit(); }
        // symmetric value around 0, simplest is 0
        double sym(double m)
        {
            uint64_t k = draw(8);
            if (k < 2) return 0. + (double(draw(9)) - 0.) / 8. * m * (draw(2) ? -1. : 1.);
            return m * double(draw(1ull << 53)) * 0x1.0p-53 * (draw(2) ? -1. : 1.);
        }
        // bulk data: one choice seeds a private stream
        Rng bulk() { return Rng{draw(1ull << 40)}; }

        void nontrivial(bool b = true) { if (b) nontrivial_ = true; }
        void label(const std::string &s) { labels_.push_back(s); }
        template <typename X> Src &operator<<(const X &x)
        {
            desc_ << x;
            if (replay) { auto t = desc_.str(); size_t k = std::min(sizeof sh->desc - 1, t.size()); memcpy(sh->desc, t.data(), k); sh->desc[k] = 0; } // survives a crash of the case
            return *this;
        }
    };

    using Fn = void (*)(Src &);
    struct Arm { std::string name; int quick, thorough; Fn fn; };
    inline std::vector<Arm> &arms() { static std::vector<Arm> a; return a; }
    struct Reg { Reg(const char *n, int q, int t, Fn f) { arms().push_back({n, q, t, f}); } };
    // probes of recorded findings: return true while the defect is still there
    struct Probe { std::string name; bool (*fn)(std::string &what); };
    inline std::vector<Probe> &probes() { static std::vector<Probe> p; return p; }
    struct RegProbe { RegProbe(const char *n, bool (*f)(std::string &)) { probes().push_back({n, f}); } };

    [[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }
    int run_main(int argc, char **argv, const char *property, const char *rule);
}

#define PBT_ARM(name, quick, thorough)                                             \
    static void pbt_fn_##name(pbt::Src &);                                         \
    static pbt::Reg pbt_reg_##name(#name, quick, thorough, &pbt_fn_##name);        \
    static void pbt_fn_##name([[maybe_unused]] pbt::Src &s)
#define PBT_PROBE(name)                                                            \
    static bool pbt_pr_##name(std::string &);                                      \
    static pbt::RegProbe pbt_rp_##name(#name, &pbt_pr_##name);                     \
    static bool pbt_pr_##name([[maybe_unused]] std::string &what)
#define REQUIRE_MSG(cond, stream)                                                  \
    do { if (!(cond)) { std::ostringstream pbt_o; pbt_o.precision(17);             \
         pbt_o << #cond << "  [" << __FILE__ << ":" << __LINE__ << "] " << stream; \
         pbt::fail(pbt_o.str()); } } while (0)
#define REQUIRE(cond) REQUIRE_MSG(cond, "")
#define DISCARD_IF(cond) do { if (cond) throw pbt::Discard{}; } while (0)
