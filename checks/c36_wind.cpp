// C36: the assembly for the Windows calling convention. All assembly functions are assembled for it and
// entered through lib/wind.S, which is the Windows caller; everything else is this system's.
#include "../lib/script.h"
#if PART == 0
#include <csignal>
#include <cpuid.h>
#include <sys/mman.h>
#include <xmmintrin.h>
#include <milo/internal/arch.h>
using u16 = std::uint16_t;
struct State
{
    const char* name;
    u64 target, rsp, rsp_after, flags, rax, pad[2];
    u64 got[8];
    u64 xmm[10][2];
    u32 mxcsr[2], x87[2][7];
};
static_assert(offsetof(State, got) == 64 && offsetof(State, xmm) == 128 && offsetof(State, mxcsr) == 288 && offsetof(State, x87) == 296);
extern "C" State wind_state;
extern "C" u64 wind_sentinel[48], wind_step;
static char g_bad[512], g_key[64];
struct Called { const char* name; u64 n; };
static Called g_called[64];
static volatile u64 g_traps;
extern "C" __attribute__((used)) void wind_judge()
{
    static const char* const reg[8] = {"rbx", "rbp", "rdi", "rsi", "r12", "r13", "r14", "r15"};
    State& l = wind_state;
    for (auto& c: g_called) { if (!c.name) c.name = l.name; if (c.name == l.name) { c.n++; break; } }
    if (g_bad[0]) return;
    auto bad = [&](const char* key, const char* what, u64 got, u64 want) {
        snprintf(g_key, sizeof g_key, "%s", key);
        snprintf(g_bad, sizeof g_bad, "%s: %s is %llx, was %llx", l.name, what, (unsigned long long)got, (unsigned long long)want);
    };
    for (int i = 0; i < 8; i++) if (l.got[i] != wind_sentinel[i]) return bad("register", reg[i], l.got[i], wind_sentinel[i]);
    for (int i = 0; i < 20; i++) if (l.xmm[i / 2][i % 2] != wind_sentinel[8 + i]) { char n[32]; snprintf(n, sizeof n, "%s half of xmm%d", i % 2 ? "upper" : "lower", 6 + i / 2); return bad("vector-register", n, l.xmm[i / 2][i % 2], wind_sentinel[8 + i]); }
    if (l.rsp_after != l.rsp) return bad("stack-pointer", "rsp", l.rsp_after, l.rsp);
    if (l.flags & 0x400) return bad("direction-flag", "flags", l.flags, l.flags & ~0x400ull);
    if ((l.mxcsr[0] ^ l.mxcsr[1]) & 0xffc0) return bad("mxcsr", "mxcsr", l.mxcsr[1], l.mxcsr[0]);
    if (u16(l.x87[1][0]) != u16(l.x87[0][0])) return bad("x87-control", "x87 control word", l.x87[1][0] & 0xffff, l.x87[0][0] & 0xffff);
    if (u16(l.x87[1][2]) != 0xffff) return bad("x87-unusable", "x87 tag word", l.x87[1][2] & 0xffff, 0xffff);
    // above the home space and the parameters, the stack is the caller's
    const u64* f = (const u64*)l.rsp;
    for (int i = 6; i < 64; i++) if (f[i] != wind_sentinel[40]) return bad("caller-frame", "a word of the caller's frame", f[i], wind_sentinel[40]);
}
static void judged(const char* when)
{
    if (!g_bad[0]) return;
    std::string m = std::string(when) + ": " + g_bad;
    g_bad[0] = 0;
    pbt::fail(g_key, m);
}
// there is no red zone: what lies below the stack pointer may change at any time
static void on_trap(int, siginfo_t*, void* uc_)
{
    auto* g = ((ucontext_t*)uc_)->uc_mcontext.gregs;
    memset((void*)(g[REG_RSP] - 1024), 0xa5, 1024);
    g_traps = g_traps + 1;
}
static void draw_state(Src& s)
{
    judged("during initialization of the program");
    u64 a = s.bits64();
    for (auto& x: wind_sentinel) x = (a = a * 0x9E3779B97F4A7C15u + 0xABCDEF) ^ a >> 29;
    if (s.below(4) == 0) for (int i = 28; i < 48; i++) wind_sentinel[i] = ~0ull;
}
static bool with_hw(const Fam& f, size_t i) { return f.v[i].name[0] != 's' || f.v[i].name[1] != 'w'; }
static bytes baseline(const Fam& f, const Script& sc)
{
    for (size_t i = 0; i < f.n; i++) if (!strcmp(f.v[i].name, "sw enforced") || !strcmp(f.v[i].name, "sw+sw")) return f.v[i].run(sc);
    pbt::fail("harness", "no software variant");
    return {};
}
static void calls(Src& s, Ctx& c)
{
    static const u8 hw[] = {0, 1, 3, 4, 5, 10, 11, 12, 17, 18, 19, 24, 25, 26};
    size_t pick = s.below(32);
    const Fam& f = fams[pick < sizeof hw ? hw[pick] : pick % 2];
    size_t i = s.below(f.n);
    c.note("%s %s ", f.name, f.v[i].name);
    if (!have(f.v[i].need) || !with_hw(f, i)) return;
    Script sc = script(s, f, c);
    draw_state(s);
    u64 before[64];
    for (size_t k = 0; k < 64; k++) before[k] = g_called[k].n;
    bytes got = f.v[i].run(sc);
    judged("call");
    pbt::same("result", got, baseline(f, sc), fmt("%s %s", f.name, f.v[i].name));
    bool any = false;
    for (size_t k = 0; k < 64 && g_called[k].name; k++) if (g_called[k].n != before[k])
    {
        std::string n = g_called[k].name;
        any = true;
        c.label(n.substr(n.find("impl") == std::string::npos ? 0 : n.find("impl")).c_str());
    }
    c.nontrivial &= any;
}
PBT_TEST("calls", calls, 2000000, 20000000, [](bool t) { return size_t(14 * 8 * (t ? 2000 : 60)); }, [](size_t i, bool) { return std::vector<u64>{i % 14, i / 14 % 8}; }, 0, 0,
         "a script of calls on a hardware backend whose assembly is built for the Windows convention, entered with drawn contents of all registers; non-volatile registers (xmm6 to xmm15, rdi and rsi included), stack, flags and control words are compared, and outputs with the software backend; non-trivial: an assembly function ran");

static void stepped(Src& s, Ctx& c)
{
    static const u8 hw[] = {0, 1, 3, 4, 5};
    const Fam& f = fams[hw[s.below(5)]];
    size_t i = s.below(f.n);
    c.note("%s %s ", f.name, f.v[i].name);
    if (!have(f.v[i].need) || !with_hw(f, i)) return;
    Script sc = script(s, f, c);
    size_t total = 0;
    for (auto& o: sc.ops)
    {
        if (o.x.size() > 1400) o.x.resize(1400);
        if (total > 2500) o.x.clear();
        total += o.x.size();
    }
    draw_state(s);
    static stack_t ss{mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), 0, 65536};
    stack_t none{};
    sigaltstack(&ss, &none);
    struct sigaction sa{}, old;
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGTRAP, &sa, &old);
    u64 t0 = g_traps;
    wind_step = 1;
    bytes got;
    auto off = [&] { wind_step = 0; sigaction(SIGTRAP, &old, nullptr); sigaltstack(&none, nullptr); };
    try { got = f.v[i].run(sc); }
    catch (...) { off(); throw; }
    off();
    judged("call");
    c.nontrivial = g_traps > t0;
    c.note(" traps=%llu", (unsigned long long)(g_traps - t0));
    pbt::same("interrupted", got, baseline(f, sc), fmt("%s %s: outputs when memory below the stack pointer changes", f.name, f.v[i].name));
}
PBT_TEST("interrupted", stepped, 4000, 150000, [](bool t) { return size_t(t ? 4000 : 300); }, [](size_t i, bool) { return std::vector<u64>{i % 5, i / 5 % 8}; }, 0, 0,
         "scripts during which memory below the stack pointer is overwritten after each instruction of the assembly, which the convention allows at any time; non-trivial: some instructions interrupted");

static void queries(Src& s, Ctx& c)
{
    static const u32 leaf[] = {0, 1, 2, 4, 7, 0xd, 0x80000000, 0x80000001, 0x80000008};
    u32 a = leaf[s.below(9)], b = u32(s.below(3)), r[4] = {1, 2, 3, 4};
    draw_state(s);
    c.note("cpuid %x %u", a, b);
    c.nontrivial = true;
    u32 fence[6];
    memset(fence, 0x77, sizeof fence);
    for (int k = 0; ; k++)
    {
        unsigned x[4], y[4];
        __cpuid_count(a, b, x[0], x[1], x[2], x[3]);
        milo::internal::arch_x86_64_cpuid(fence + 1, a, b);
        __cpuid_count(a, b, y[0], y[1], y[2], y[3]);
        judged("cpuid");
        if (fence[0] != 0x77777777 || fence[5] != 0x77777777) pbt::fail("bounds", "cpuid writes outside its array");
        if (!memcmp(fence + 1, x, 16) || !memcmp(fence + 1, y, 16)) break;
        if (memcmp(x, y, 16) == 0 || k > 1000) pbt::fail("cpuid", fmt("leaf %x: %08x %08x %08x %08x, expected %08x %08x %08x %08x", a, fence[1], fence[2], fence[3], fence[4], x[0], x[1], x[2], x[3]));
    }
    unsigned p, q, cx, dx;
    __cpuid(1, p, q, cx, dx);
    if (cx >> 27 & 1)
    {
        u32 lo, hi;
        __asm__ volatile("xgetbv" : "=a"(lo), "=d"(hi) : "c"(0));
        u32 got = milo::internal::arch_x86_64_xgetbv(0);
        judged("xgetbv");
        if (got != lo) pbt::fail("xgetbv", fmt("xgetbv gives %x, expected %x", got, lo));
    }
}
PBT_TEST("queries", queries, 3000, 30000, [](bool) { return size_t(27); }, [](size_t i, bool) { return std::vector<u64>{i % 9, i / 9}; }, 0, 0,
         "cpuid of every kind of leaf and xgetbv through the Windows assembly against the instructions themselves; non-trivial: all");
#endif
