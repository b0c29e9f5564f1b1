// C21: operations touch only the memory they are given, and do nothing undefined.
// Built twice: with every range between inaccessible pages and inputs in pages that cannot be
// written (hardware decides, assembly included), and with address and undefined-behaviour
// sanitizers over ranges allocated exactly.  Results are not judged here.
#if defined(__SANITIZE_ADDRESS__)
#define H_NULL
#else
#define H_GUARD
#endif
#if SCRIPTS                     // PART comes with it
#include "../lib/script.h"
#if PART == 0
__attribute__((noinline)) static void paint(u8 x)
{
    u8 b[12000];
    memset(b, x, sizeof b);
    __asm__ volatile("" : : "r"(b) : "memory");
}
// objects in watched storage; whatever the storage and the stack held before, results are equal
static void objects(Src& s, Ctx& c)
{
    const Fam& f = fams[s.below(nf)];
    size_t i = s.below(f.n);
    c.note("%s %s ", f.name, f.v[i].name);
    Script a = script(s, f, c);
    if (!have(f.v[i].need)) { c.nontrivial = false; return; }
    a.place = 1 + s.below(2);
    a.fill = u8(s.below(256));
    Script b = a;
    b.fill = u8(a.fill ^ (1 + s.below(255)));
    b.place = 1 + s.below(2);
    paint(a.fill);
    bytes x = f.v[i].run(a);
    paint(b.fill);
    bytes y = f.v[i].run(b);
    pbt::same("indeterminate", x, y, fmt("%s %s: outputs over storage holding %02x against %02x before", f.name, f.v[i].name, a.fill, b.fill));
}
PBT_TEST("objects", objects, H_ASAN ? 80000 : 60000, H_ASAN ? 400000 : 3000000, [](bool t) { return size_t(31 * (t ? 4000 : 200)); }, [](size_t i, bool) { return std::vector<u64>{i % 31, i / 31 % 7}; }, H_ASAN ? 0 : 40000, H_ASAN ? 0 : 1000000,
         "a script of calls on objects ending or starting at an inaccessible page, run twice over storage and stack holding different bytes before; non-trivial: some bytes processed");
#endif
#else
#include "../lib/ranges.h"
#if RANGES == 0
static void ranges(Src& s, Ctx& c)
{
    // two kinds of choice: each operation as often, or mostly those with vector code of their own
    const Range& r = all()[s.below(nr)];
    size_t n = length(s, 6000, 64);
    c.note("%s len=%zu", r.name, n);
    if (!have(r.need)) return;
    c.nontrivial = n > 0;
    r.run(s, c, n);
}
PBT_TEST("ranges", ranges, H_ASAN ? 300000 : 200000, H_ASAN ? 1500000 : 8000000,
         [](bool t) { return nr * (t ? 1100 : H_ASAN ? 300 : 540); },
         [](size_t i, bool t) { size_t g = t ? 1100 : H_ASAN ? 300 : 540; return std::vector<u64>{i % nr, 0, i / nr % g}; }, H_ASAN ? 0 : 60000, H_ASAN ? 0 : 2000000,
         H_ASAN ? "every operation and backend over ranges allocated exactly (or absent when empty) at any alignment, under address and undefined-behaviour sanitizers; non-trivial: a non-empty range"
                : "every operation and backend x length (grid: every small length), all ranges ending or starting at an inaccessible page, inputs in read-only pages, through any call form; non-trivial: a non-empty range");
// ciphers once more: these have the widest steps
static void vectors(Src& s, Ctx& c)
{
    const Range& r = all()[70 + s.below(6)];
    size_t n = s.below(3) ? s.size(3000, 64) : s.size(20000, 512);
    c.note("%s len=%zu", r.name, n);
    if (!have(r.need)) return;
    c.nontrivial = n > 0;
    r.run(s, c, n);
}
PBT_TEST("streams", vectors, H_ASAN ? 100000 : 150000, H_ASAN ? 600000 : 5000000, nullptr, nullptr, H_ASAN ? 0 : 60000, H_ASAN ? 0 : 1000000,
         "the stream operations, in pieces and in place, up to 20000 bytes; non-trivial: some text");
#endif
#endif
