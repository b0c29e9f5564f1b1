// A small property-based testing engine (choice-sequence style).
//
// A property is a function  void f(pbt::Src&, pbt::Ctx&)  that draws every random decision from
// Src and throws pbt::Fail when an oracle is violated.  A case IS its sequence of drawn choices:
// it is replayed, shrunk and (in guided phases) mutated at that level.
//
// Every test runs in forked worker processes, so crashes, sanitizer aborts, std::terminate and
// hangs of the code under test are ordinary failures that shrink like any other.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace pbt
{
    using u64 = std::uint64_t;
    using u8 = std::uint8_t;
    using bytes = std::vector<u8>;

    struct Fail
    {
        std::string key;   // stable identity of what failed (known-findings match on it)
        std::string msg;
    };

    [[noreturn]] void fail(std::string key, std::string msg);

    struct Rng
    {
        u64 s[4];
        explicit Rng(u64 seed = 1);
        u64 next();
    };

    class Src
    {
    public:
        enum class Mode { random, replay };
        Mode mode = Mode::random;
        Rng rng;
        const std::vector<u64>* in = nullptr;   // replayed / forced prefix
        size_t pos = 0;
        bool mix = false;                       // after `in` is exhausted: random instead of 0
        bool inner = false;                     // a stream inside of a case, seeded by it: not part of its choices
        std::vector<u64> log;                   // canonical choices actually used

        // uniform in [0, n)
        u64 below(u64 n);
        // uniform in [lo, hi]
        u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
        bool chance(u64 num, u64 den) { return below(den) >= den - num; }   // shrinks to false
        u64 bits64() { return below(0); }
        template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
        // a size in [0,max], biased to small, and to values near multiples of `block`
        size_t size(size_t max, size_t block = 64);
        // contents for n bytes: patterns or pseudo random, decided by two choices
        bytes content(size_t n);
        u64 draw_raw(u64 n);
    };

    struct Ctx
    {
        std::string desc;           // human readable case
        bool nontrivial = false;
        std::vector<std::string> labels;
        bool want_desc = true;
        void label(const char* l) { labels.emplace_back(l); }
        void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    };

    std::string hex(const u8* p, size_t n, size_t max = 32);
    inline std::string hex(const bytes& b, size_t max = 32) { return hex(b.data(), b.size(), max); }
    void same(const char* key, const bytes& got, const bytes& want, const std::string& what);

    struct Test
    {
        std::string name;
        void (*run)(Src&, Ctx&);
        size_t quick = 0, thorough = 0;           // random cases
        // grid: forced prefixes enumerated exhaustively (random tail)
        std::function<size_t(bool)> grid_n;
        std::function<std::vector<u64>(size_t, bool)> grid;
        size_t guided_quick = 0, guided_thorough = 0; // coverage guided executions (needs sancov)
        std::string rule;
        unsigned cpu = 40;   // CPU seconds one case may take before it counts as not terminating
    };

    // what makes a case non-trivial, shown in the evidence
    std::vector<Test>& tests();
    struct Reg { Reg(Test t) { tests().push_back(std::move(t)); } };

    // instrumented branches passed so far (coverage flavour)
    extern u64 g_edges;

    int main(int argc, char** argv);
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_TEST(...) static pbt::Reg PBT_CAT(reg_, __COUNTER__){pbt::Test{__VA_ARGS__}}
