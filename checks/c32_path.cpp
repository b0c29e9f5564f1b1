// C32: the instructions an algorithm runs follow from sizes alone, never from contents.
#include "../lib/script.h"
#if PART == 0
#include "../lib/trace.h"
// comparisons of the C library end at the first difference here, so that using one shows
extern "C" __attribute__((noinline, optimize("no-tree-loop-distribute-patterns"))) int memcmp(const void* a, const void* b, size_t n) noexcept
{
    auto x = (const volatile u8*)a, y = (const volatile u8*)b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
extern "C" int bcmp(const void* a, const void* b, size_t n) noexcept { return memcmp(a, b, n); }

static trace::Log g_a, g_b, g_c;
static bytes traced(Runner run, const Script& s, trace::Log& l)
{
    bytes r;
    std::exception_ptr e;
    trace::record(l, [&] { try { r = run(s); } catch (...) { e = std::current_exception(); } });
    if (e) std::rethrow_exception(e);
    return r;
}
// other contents of the same size
static void refill(Src& s, bytes& x, u64 how)
{
    if (x.empty()) return;
    switch (how == 7 ? s.below(7) : how)
    {
    case 0: { bytes y = s.content(x.size()); x = y; break; }
    case 1: for (auto& b: x) b = 0; break;
    case 2: for (auto& b: x) b = 0xff; break;
    case 3: x[s.below(x.size())] ^= u8(1 + s.below(255)); break;
    case 4: for (auto& b: x) b = ~b; break;
    case 6: for (auto& b: x) b = 0; x[0] = u8(1 + s.below(5)); break;
    default: for (auto& b: x) b = u8(s.below(256)); break;
    }
}
static void path(Src& s, Ctx& c)
{
    size_t pick = s.below(48);
    const Fam& f = fams[pick < nf ? pick : pick % 3];
    size_t i = s.below(f.n);
    c.note("%s %s ", f.name, f.v[i].name);
    if (!have(f.v[i].need)) return;
    Script a = script(s, f, c);
    if (a.ops.size() > 5) a.ops.resize(5);
    size_t total = 0;
    for (auto& o: a.ops)
    {
        size_t cap = f.type == 2 || f.type == 3 ? 300 : 140;
        if (total > cap) o.x.resize(std::min<size_t>(o.x.size(), 20));
        if (o.x.size() > cap) o.x.resize(cap);
        if (f.type >= 4 && o.kind == 8) o.a %= 70;
        if (f.type == 5 && o.kind == 0) o.a = 1 + o.a % 2;
        total += o.x.size();
    }
    Script b = a;
    u64 how = s.below(8), what = s.below(2) ? 1 + s.below(7) : 7;
    for (auto& o: b.ops)
    {
        // initialization: x ikm, y key or salt, z nonce or info
        if (o.kind == 0 ? what & 1 : what & 2) refill(s, o.x, how);
        if (what & 1) refill(s, o.y, how);
        if (what & 4) refill(s, o.z, how);
    }
    c.note(" | other contents %d in %d", int(how), int(what));
    bytes r = f.v[i].run(a), ra = traced(f.v[i].run, a, g_a), rb = traced(f.v[i].run, b, g_b);
    c.nontrivial = ra != rb && g_a.n > 100;
    if (g_a.n >= trace::Log::cap) c.label("long");
    if (g_a == g_b) return;
    traced(f.v[i].run, a, g_c);
    if (!(g_a == g_c)) { c.label("unsettled"); return; }
    pbt::fail("content-dependent-path", fmt("%s %s: equal sizes with other contents take different instructions: ", f.name, f.v[i].name) + trace::difference(g_a, g_b));
}
PBT_TEST("contents", path, 400, 60000, [](bool t) { return size_t(nf * 8 * (t ? 40 : 1)); }, [](size_t i, bool) { return std::vector<u64>{i % nf, i / nf % 8}; }, 0, 0,
         "a script of calls on any backend of an algorithm, single-stepped with two contents of equal sizes for keys, nonces, inputs (arbitrary, zeros, ones, one byte changed, complemented); non-trivial: the outputs differed");
#endif
