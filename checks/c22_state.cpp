// C22: the caller's registers, stack and control settings survive every call.
// All assembly functions of the executable are entered through lib/tramp.S, whichever they are, and
// so is every operation as a whole.
#include "../lib/script.h"
#if PART == 0
#include <csignal>
#include <map>
#include <xmmintrin.h>

using u16 = std::uint16_t;
struct Level
{
    u64 saved[7], target;
    const char* name;
    u64* frame;
    u64 got[6], rsp, flags, rax, rdx, level;
    u32 mxcsr[2];
    u32 x87[2][7];
    u64 pad, want_rsp;
};
static_assert(offsetof(Level, rsp) == 128 && offsetof(Level, x87) == 176 && offsetof(Level, want_rsp) == 240);
extern "C" u64 tramp_sentinel[6], tramp_step;
extern "C" void tramp_call(void (*)(void*), void*);
static char g_bad[512], g_key[64];
struct Called { const char* name; u64 n; };
static Called g_called[64];
static volatile u64 g_traps;
extern "C" __attribute__((used, target("general-regs-only"))) void tramp_judge(Level* l)
{
    static const char* const reg[6] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
    for (auto& c: g_called) { if (!c.name) c.name = l->name; if (c.name == l->name) { c.n++; break; } }
    if (g_bad[0]) return;
    auto bad = [&](const char* key, const char* what, u64 got, u64 want) {
        snprintf(g_key, sizeof g_key, "%s", key);
        snprintf(g_bad, sizeof g_bad, "%s: %s is %llx, was %llx", l->name, what, (unsigned long long)got, (unsigned long long)want);
    };
    for (int i = 0; i < 6; i++) if (l->got[i] != tramp_sentinel[i]) return bad("register", reg[i], l->got[i], tramp_sentinel[i]);
    if (l->rsp != l->want_rsp) return bad("stack-pointer", "rsp", l->rsp, l->want_rsp);
    if (l->flags & 0x400) return bad("direction-flag", "flags", l->flags, l->flags & ~0x400ull);
    if ((l->mxcsr[0] ^ l->mxcsr[1]) & 0xffc0) return bad("mxcsr", "mxcsr", l->mxcsr[1], l->mxcsr[0]);
    if (u16(l->x87[1][0]) != u16(l->x87[0][0])) return bad("x87-control", "x87 control word", l->x87[1][0] & 0xffff, l->x87[0][0] & 0xffff);
    if (u16(l->x87[1][2]) != 0xffff) return bad("x87-unusable", "x87 tag word", l->x87[1][2] & 0xffff, 0xffff);
    for (int i = l->level ? 0 : 8; i < 63; i++) if (l->frame[i] != 0x5e5f5e5f6a6b6a6b) return bad("caller-frame", "a word of the caller's frame", l->frame[i], 0x5e5f5e5f6a6b6a6b);
}
static void judged(const char* when)
{
    if (!g_bad[0]) return;
    std::string m = std::string(when) + ": " + g_bad;
    g_bad[0] = 0;
    pbt::fail(g_key, m);
}
static void on_trap(int) { g_traps = g_traps + 1; }
struct Job { Runner run; const Script* s; bytes out; std::exception_ptr e; };
static bytes entered(Src& s, Runner run, const Script& sc)
{
    judged("during initialization of the program");
    for (auto& x: tramp_sentinel) x = s.bits64() * 0x9E3779B97F4A7C15u ^ 0xABCDEF;
    u32 mx = _mm_getcsr(), my = (mx & ~0xe07fu) | u32(s.below(4)) << 13 | (s.below(4) == 0 ? 0x8040 : 0);
    static const u16 pc[] = {0x000, 0x200, 0x300};
    u16 cw, cx = u16(0x3f | pc[s.below(3)] | s.below(4) << 10);
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    __asm__ volatile("fldcw %0" : : "m"(cx));
    _mm_setcsr(my);
    Job j{run, &sc, {}, {}};
    // an exception must not leave through the trampoline
    tramp_call([](void* p) { Job* j = (Job*)p; try { j->out = j->run(*j->s); } catch (...) { j->e = std::current_exception(); } }, &j);
    _mm_setcsr(mx);
    __asm__ volatile("fldcw %0" : : "m"(cw));
    judged("call");
    if (j.e) std::rethrow_exception(j.e);
    return j.out;
}
static void count(Ctx& c, const u64* before)
{
    for (size_t i = 0; i < 64 && g_called[i].name; i++) if (g_called[i].n != before[i] && strcmp(g_called[i].name, "operation"))
    {
        std::string n = g_called[i].name;
        c.label(n.substr(n.find("impl") == std::string::npos ? 0 : n.find("impl")).c_str());
    }
}
static void state(Src& s, Ctx& c)
{
    size_t pick = s.below(64);
    const Fam& f = fams[pick < nf ? pick : pick % 4 ? 0 : 1 + pick / 4 % 4];
    size_t i = s.below(f.n);
    c.note("%s %s ", f.name, f.v[i].name);
    if (!have(f.v[i].need)) return;
    Script sc = script(s, f, c);
    u64 before[64];
    for (size_t k = 0; k < 64; k++) before[k] = g_called[k].n;
    entered(s, f.v[i].run, sc);
    count(c, before);
}
PBT_TEST("calls", state, 1500000, 10000000, [](bool t) { return size_t(nf * 8 * (t ? 2000 : 60)); }, [](size_t i, bool) { return std::vector<u64>{i % nf, i / nf % 8}; }, 0, 0,
         "a script of calls on any backend of an algorithm; every assembly function and the whole entered with drawn contents of callee-saved registers, rounding and denormal modes and x87 control; afterwards registers, stack pointer, the caller's frame, direction flag, control words and x87 stack are compared; non-trivial: some bytes processed");

static void lengths(Src& s, Ctx& c)
{
    const Fam& f = fams[0];
    size_t n = s.below(5000), i = s.below(f.n), skip = s.below(3) ? 0 : s.below(300);
    c.note("%s after %zu, %zu bytes", f.v[i].name, skip, n);
    if (!have(f.v[i].need)) return;
    Script sc{{init_op(s, f)}, s.below(2) == 0, 0, s.below(33), 32 + s.below(33)};
    if (skip) sc.ops.push_back({6, 0, 0, bytes(skip, 7), {}, {}});
    sc.ops.push_back({6, 0, 0, bytes(n, 9), {}, {}});
    if (s.below(2)) sc.ops.push_back({7, 0, 0, bytes(s.below(600), 1), {}, {}});
    c.nontrivial = n > 0;
    entered(s, f.v[i].run, sc);
}
PBT_TEST("lengths", lengths, 50000, 1000000, [](bool t) { return size_t(8 * (t ? 5000 : 2200)); }, [](size_t i, bool) { return std::vector<u64>{i / 8, i % 8, i / 8 % 3}; }, 0, 0,
         "the vector ciphers over every length, with and without left-over key stream; non-trivial: some bytes");

// a signal handler runs after every instruction of the assembly: what it may overwrite must not matter
static void stepped(Src& s, Ctx& c)
{
    size_t pick = s.below(16);
    const Fam& f = fams[pick < 6 ? pick : pick % 2 ? 0 : 3 + pick % 3];
    size_t i = s.below(f.n);
    c.note("%s %s ", f.name, f.v[i].name);
    if (!have(f.v[i].need)) return;
    Script sc = script(s, f, c);
    size_t total = 0;
    for (auto& o: sc.ops)
    {
        if (o.x.size() > 1400) o.x.resize(1400);
        if (total > 2500) o.x.clear();
        total += o.x.size();
    }
    bytes want = f.v[i].run(sc);
    struct sigaction sa{}, old;
    sa.sa_handler = on_trap;
    sigaction(SIGTRAP, &sa, &old);
    u64 t0 = g_traps;
    tramp_step = 1;
    bytes got;
    try { got = entered(s, f.v[i].run, sc); }
    catch (...) { tramp_step = 0; sigaction(SIGTRAP, &old, nullptr); throw; }
    tramp_step = 0;
    sigaction(SIGTRAP, &old, nullptr);
    c.nontrivial = g_traps > t0;
    c.note(" traps=%llu", (unsigned long long)(g_traps - t0));
    pbt::same("interrupted", got, want, fmt("%s %s: outputs when interrupted by signals", f.name, f.v[i].name));
}
PBT_TEST("interrupted", stepped, 6000, 200000, [](bool t) { return size_t(t ? 4000 : 300); }, [](size_t i, bool) { return std::vector<u64>{i % 6, i / 6 % 8}; }, 0, 0,
         "scripts run with a signal after each instruction of the assembly functions, compared with an uninterrupted run; non-trivial: some instructions interrupted");
#endif
