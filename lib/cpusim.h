// Simulated CPUs: a child process becomes a drawn CPU before any initialization runs: every cpuid and
// xgetbv instruction of the executable traps and is answered from the drawn CPU, and every instruction
// of a feature which that CPU does not report traps and ends the child, as it would be fatal on the real one.
// Features can be watched: then the first instruction of one that executes is noted.
#pragma once
#include <algorithm>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>
#include <ucontext.h>
using namespace drv;

enum Feature { f_cpuid, f_xgetbv, f_sse3, f_ssse3, f_sse41, f_sse42, f_avx, f_avx2, f_sha, f_bmi1, f_bmi2, f_aes, f_pclmul, f_popcnt, f_movbe, f_adx, f_fma, f_avx512, f_count };
static const char* const f_name[] = {"cpuid", "xgetbv", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "sha", "bmi1", "bmi2", "aes", "pclmul", "popcnt", "movbe", "adx", "fma", "avx512"};
struct Entry { u64 off; u32 feature; u32 len; };       // offset from the start of the executable
struct Cpu
{
    u32 max_leaf, l1c, l1d, l7b, l7c, l7d, beyond, xcr0;   // beyond: answer of leaves above the maximum
    u32 watch;                                  // features whose execution is noted, as bits
    u64 seed, ops;
};
static bool has(const Cpu& c, Feature f)
{
    bool l7 = c.max_leaf >= 7, l1 = c.max_leaf >= 1;
    auto bit1 = [&](int b) { return l1 && (c.l1c >> b & 1); };
    auto bit7 = [&](int b) { return l7 && (c.l7b >> b & 1); };
    bool ymm = bit1(27) && (c.xcr0 & 6) == 6;
    switch (f)
    {
    case f_sse3: return bit1(0);
    case f_ssse3: return bit1(9);
    case f_sse41: return bit1(19);
    case f_sse42: return bit1(20);
    case f_avx: return ymm && bit1(28);
    case f_avx2: return ymm && bit7(5);
    case f_sha: return bit7(29);
    case f_bmi1: return bit7(3);
    case f_bmi2: return bit7(8);
    case f_aes: return bit1(25);
    case f_pclmul: return bit1(1);
    case f_popcnt: return bit1(23);
    case f_movbe: return bit1(22);
    case f_adx: return bit7(19);
    case f_fma: return ymm && bit1(12);
    case f_avx512: return ymm && (c.xcr0 & 0xe0) == 0xe0 && bit7(16);
    case f_xgetbv: return bit1(27);
    default: return true;
    }
}

// ---- instruction table ----------------------------------------------------------------------
extern "C" char __executable_start;
static int classify(const std::string& m, const std::string& ops)
{
    auto starts = [&](std::initializer_list<const char*> l) { for (auto x: l) if (m.compare(0, strlen(x), x) == 0) return true; return false; };
    if (m == "cpuid") return f_cpuid;
    if (m == "xgetbv") return f_xgetbv;
    if (ops.find("%zmm") != std::string::npos || ops.find("{%k") != std::string::npos || ops.find("mm16") != std::string::npos) return f_avx512;
    if (starts({"sha1", "sha256"})) return f_sha;
    if (m[0] == 'v' && !starts({"verr", "verw", "vm"}) || starts({"vmov", "vmax", "vmin", "vmul", "vmaskmov", "vmpsadbw"}))
    {
        if (starts({"vfm", "vfnm"})) return f_fma;
        if (starts({"vpbroadcast", "vbroadcasti", "vinserti", "vextracti", "vperm2i", "vpermd", "vpermq", "vpermps", "vpermpd", "vpsllv", "vpsrlv", "vpsrav", "vpblendd", "vpmaskmov", "vgather", "vpgather"})) return f_avx2;
        if (starts({"vp", "vmpsadbw", "vmovntdqa"}) && ops.find("%ymm") != std::string::npos && !starts({"vptest", "vperm2f", "vpermil"})) return f_avx2;
        return f_avx;
    }
    if (starts({"pshufb", "palignr", "pabsb", "pabsw", "pabsd", "phadd", "phsub", "pmaddubsw", "pmulhrsw", "psign"})) return f_ssse3;
    if (starts({"pextrb", "pextrd", "pextrq", "pinsrb", "pinsrd", "pinsrq", "pblend", "blend", "ptest", "pmulld", "pmuldq", "pminsb", "pminsd", "pminuw", "pminud", "pmaxsb", "pmaxsd", "pmaxuw", "pmaxud", "pmovsx", "pmovzx", "insertps", "extractps", "round", "packusdw", "pcmpeqq", "movntdqa", "dpp", "mpsadbw", "phmin"})) return f_sse41;
    if (starts({"pcmpgtq", "pcmpestr", "pcmpistr", "crc32"})) return f_sse42;
    if (starts({"addsubp", "haddp", "hsubp", "lddqu", "movddup", "movshdup", "movsldup"})) return f_sse3;
    if (starts({"aesenc", "aesdec", "aesimc", "aeskeygen"})) return f_aes;
    if (starts({"pclmul"})) return f_pclmul;
    if (m == "popcnt") return f_popcnt;
    if (starts({"movbe"})) return f_movbe;
    if (starts({"adcx", "adox"})) return f_adx;
    if (starts({"rorx", "mulx", "pdep", "pext", "bzhi", "sarx", "shlx", "shrx"})) return f_bmi2;
    if (starts({"andn", "bextr", "blsi", "blsr", "blsmsk"}) && !starts({"andnp"})) return f_bmi1;
    return -1;
}
static std::string table_path;
static std::map<int, size_t> table_count;
static void make_table(const std::string& path)
{
    FILE* p = popen(("objdump -d --insn-width=16 /proc/" + std::to_string(getpid()) + "/exe").c_str(), "r");
    std::vector<Entry> t;
    std::set<u64> seen;
    char line[1024];
    u64 linked_base = 0;
    while (fgets(line, sizeof line, p))
    {
        std::string l = line;
        size_t a = l.find(":\t");
        if (a == std::string::npos || a > 20) continue;
        u64 addr = strtoull(l.c_str(), nullptr, 16);
        size_t b = l.find('\t', a + 2);
        if (b == std::string::npos) continue;
        std::string raw = l.substr(a + 2, b - a - 2), ins = l.substr(b + 1);
        while (!ins.empty() && (ins.back() == '\n' || ins.back() == ' ')) ins.pop_back();
        size_t len = 0;
        for (size_t i = 0; i + 1 < raw.size(); i += 3) len += isxdigit(raw[i]) != 0;
        size_t sp = ins.find(' ');
        std::string m = ins.substr(0, sp), ops = sp == std::string::npos ? "" : ins.substr(sp);
        if (m.empty()) continue;
        int f = classify(m, ops);
        if (f < 0 || len < 2 || !seen.insert(addr).second) continue;
        t.push_back({addr, u32(f), u32(len)});
        table_count[f]++;
    }
    pclose(p);
    // linked as position independent: addresses start at 0; otherwise at the executable's start
    if (!t.empty() && t[0].off >= 0x400000) linked_base = 0x400000;
    for (auto& e: t) e.off -= linked_base;
    FILE* o = fopen(path.c_str(), "wb");
    fwrite(t.data(), sizeof(Entry), t.size(), o);
    fclose(o);
}

// ---- the child ------------------------------------------------------------------------------
static bool is_child;
static Cpu me;
static Entry* entries;
static size_t n_entries;
static unsigned long cpuids;
static volatile u32 executed;                            // watched features of which an instruction executed since arm()
static u8 (*original)[2];
static u8* place(const Entry& e) { return (u8*)(std::uintptr_t(&__executable_start) + e.off); }
[[maybe_unused]] static void arm()
{
    for (size_t i = 0; i < n_entries; i++) if (executed >> entries[i].feature & 1) place(entries[i])[0] = 0x0f, place(entries[i])[1] = 0x0b;
    executed = 0;
}
static void die(const char* a, const char* b, u64 off)
{
    char m[256];
    int n = snprintf(m, sizeof m, "\n!unsupported %s%s (executable offset 0x%llx)\n", a, b, (unsigned long long)off);
    (void)!write(1, m, n);
    _exit(4);
}
static void on_ill(int, siginfo_t*, void* uc_)
{
    auto* uc = (ucontext_t*)uc_;
    auto* g = uc->uc_mcontext.gregs;
    u64 off = u64(g[REG_RIP]) - u64(&__executable_start);
    size_t lo = 0, hi = n_entries;
    while (lo < hi) { size_t mid = (lo + hi) / 2; if (entries[mid].off < off) lo = mid + 1; else hi = mid; }
    if (lo == n_entries || entries[lo].off != off) die("instruction", " outside the table", off);
    const Entry& e = entries[lo];
    if ((me.watch >> e.feature & 1) && has(me, Feature(e.feature)))
    {
        executed |= 1u << e.feature;
        for (size_t i = 0; i < n_entries; i++) if (entries[i].feature == e.feature) place(entries[i])[0] = original[i][0], place(entries[i])[1] = original[i][1];
        return;
    }
    if (e.feature == f_cpuid)
    {
        cpuids++;
        u32 leaf = u32(g[REG_RAX]), sub = u32(g[REG_RCX]), r[4] = {0, 0, 0, 0};
        if (leaf < 0x80000000u && leaf > me.max_leaf)
        {
            // like real CPUs: zeros, or the data of the highest leaf, or anything
            if (me.beyond == 1) leaf = me.max_leaf;
            else if (me.beyond >= 2) r[0] = r[1] = r[2] = r[3] = me.beyond == 2 ? ~0u : me.beyond * 2654435761u;
        }
        if (leaf <= me.max_leaf) switch (leaf)
        {
        case 0: r[0] = me.max_leaf; r[1] = 0x756e6547; r[2] = 0x6c65746e; r[3] = 0x49656e69; break;
        case 1: r[0] = 0x000906ea; r[1] = 0x00100800; r[2] = me.l1c; r[3] = me.l1d; break;
        case 2: r[0] = 0x76036301; r[1] = 0x00f0b5ff; r[3] = 0x00c30000; break;
        case 4: r[0] = 0x1c004121; r[1] = 0x21c0003f | 1u << 29 | 1u << 5; r[2] = 0x3f; break;
        case 7: if (sub == 0) r[1] = me.l7b, r[2] = me.l7c, r[3] = me.l7d; break;
        case 0xd: r[0] = me.xcr0; break;
        default: break;
        }
        g[REG_RAX] = r[0], g[REG_RBX] = r[1], g[REG_RCX] = r[2], g[REG_RDX] = r[3];
        g[REG_RIP] += e.len;
        return;
    }
    if (e.feature == f_xgetbv && has(me, f_xgetbv))
    {
        g[REG_RAX] = u32(g[REG_RCX]) == 0 ? me.xcr0 : 0;
        g[REG_RDX] = 0;
        g[REG_RIP] += e.len;
        return;
    }
    die(f_name[e.feature], " instruction executed", off);
}
static void become(int, char**, char** env)
{
    const char* cfg = nullptr;
    for (char** e = env; *e; e++) if (!strncmp(*e, "CPU_CHILD=", 10)) cfg = *e + 10;
    if (!cfg) return;
    is_child = true;
    char path[512];
    unsigned long long seed, ops;
    if (sscanf(cfg, "%u,%u,%u,%u,%u,%u,%u,%u,%u,%llu,%llu,%500s", &me.max_leaf, &me.l1c, &me.l1d, &me.l7b, &me.l7c, &me.l7d, &me.beyond, &me.xcr0, &me.watch, &seed, &ops, path) != 12) _exit(97);
    me.seed = seed, me.ops = ops;
    int fd = open(path, O_RDONLY);
    off_t sz = lseek(fd, 0, SEEK_END);
    n_entries = size_t(sz) / sizeof(Entry);
    if (sz) entries = (Entry*)mmap(nullptr, size_t(sz), PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    if (sz) original = (u8 (*)[2])mmap(nullptr, n_entries * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    static char stack[65536];
    stack_t ss{};
    ss.ss_sp = stack, ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_ill;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGILL, &sa, nullptr);
    for (size_t i = 0; i < n_entries; i++)
    {
        const Entry& e = entries[i];
        if (e.feature != f_cpuid && e.feature != f_xgetbv && has(me, Feature(e.feature)) && !(me.watch >> e.feature & 1)) continue;
        u8* p = place(e);
        u8* page = (u8*)(std::uintptr_t(p) & ~std::uintptr_t(4095));
        static u8* last;
        if (page != last || (u8*)(std::uintptr_t(p + 1) & ~std::uintptr_t(4095)) != last) mprotect(page, 8192, PROT_READ | PROT_WRITE | PROT_EXEC);
        last = page;
        original[i][0] = p[0], original[i][1] = p[1];
        p[0] = 0x0f, p[1] = 0x0b;
    }
}
__attribute__((section(".preinit_array"), used)) static void (*become_p)(int, char**, char**) = become;

// ---- the parent -----------------------------------------------------------------------------
static u32 real1c, real7b, real_xcr0;
static void real_cpu()
{
    unsigned a = 0, b, c, d, max;
    __asm__ volatile("cpuid" : "+a"(a), "=b"(b), "=c"(c), "=d"(d));
    max = a;
    a = 1, c = 0;
    __asm__ volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d));
    real1c = c;
    if (max >= 7)
    {
        a = 7, c = 0;
        __asm__ volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d));
        real7b = b;
    }
    if (real1c >> 27 & 1)
    {
        unsigned lo, hi;
        __asm__ volatile("xgetbv" : "=a"(lo), "=d"(hi) : "c"(0));
        real_xcr0 = lo;
    }
}
extern char** environ;
static bool run_child(const Cpu& k, std::string& out)
{
    char cfg[1024];
    snprintf(cfg, sizeof cfg, "CPU_CHILD=%u,%u,%u,%u,%u,%u,%u,%u,%u,%llu,%llu,%s", k.max_leaf, k.l1c, k.l1d, k.l7b, k.l7c, k.l7d, k.beyond, k.xcr0, k.watch, (unsigned long long)k.seed, (unsigned long long)k.ops, table_path.c_str());
    char* argv[] = {(char*)"cpu", nullptr};
    char* env[] = {cfg, nullptr};
    int p[2];
    if (pipe2(p, O_CLOEXEC)) _exit(99);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, p[1], 1);
    posix_spawn_file_actions_adddup2(&fa, p[1], 2);
    pid_t pid;
    int e = posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, argv, env);
    posix_spawn_file_actions_destroy(&fa);
    close(p[1]);
    if (e) { fprintf(stderr, "spawn: %s\n", strerror(e)); _exit(99); }
    char b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, size_t(n));
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 99)) { fprintf(stderr, "child could not start\n"); _exit(99); }
    if (WIFSIGNALED(st)) out += fmt("\n!the process died of signal %d", WTERMSIG(st));
    return false;
}
// a drawn CPU; the interesting features are `bits`, so that a grid can enumerate them
static Cpu draw_cpu(Src& s, u64 bits)
{
    Cpu k{};
    k.max_leaf = (bits & 256) ? 6 - u32(s.below(7)) : s.below(3) ? 7 + u32(s.below(25)) : 7;
    k.l1d = 0x078bfbff;
    u32 extra = s.below(2) ? u32(s.bits64()) : 0, extra7 = s.below(2) ? u32(s.bits64()) : 0;
    const u32 m1 = 1u << 0 | 1u << 9 | 1u << 19 | 1u << 20 | 1u << 27 | 1u << 28, m7 = 1u << 5 | 1u << 29;
    bool sse3 = !(bits & 1), ssse3 = !(bits & 2), sse4 = !(bits & 4), osx = !(bits & 8), avx = !(bits & 16), avx2 = !(bits & 32), sha = !(bits & 64);
    k.l1c = (extra & ~m1) | u32(sse3) | u32(ssse3) << 9 | u32(sse4) << 19 | u32(sse4 && s.below(4) != 3) << 20 | u32(osx) << 27 | u32(avx) << 28;
    k.l7b = (extra7 & ~m7) | u32(avx2) << 5 | u32(sha) << 29;
    k.xcr0 = (bits & 128) ? u32(s.below(2)) * 2 + 1 + (s.below(2) ? 4 * u32(s.below(2)) : 0) : 7;
    if ((bits & 128) && (k.xcr0 & 6) == 6) k.xcr0 = 3;
    k.beyond = u32(s.below(6));
    // nothing this machine cannot execute
    k.l1c &= real1c | 1u << 27;
    k.l7b &= real7b;
    if ((real_xcr0 & 6) != 6) k.l1c &= ~(1u << 28);
    return k;
}
static void describe(Ctx& c, const Cpu& k)
{
    c.note("max leaf %u, features:", k.max_leaf);
    for (int f = f_sse3; f < f_count; f++) if (has(k, Feature(f))) c.note(" %s", f_name[f]);
    c.note("; leaf1.ecx=%08x leaf7.ebx=%08x xcr0=%x beyond=%u", k.l1c, k.l7b, k.xcr0, k.beyond);
}
static int child();
int main(int argc, char** argv)
{
    if (is_child) return child();
    real_cpu();
    std::string tmp = "/tmp";
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tmp")) tmp = argv[i + 1];
    table_path = tmp + "/instructions";
    make_table(table_path);
    printf("  instructions of each feature in the executable:");
    for (auto& [f, n]: table_count) printf(" %s=%zu", f_name[f], n);
    printf("\n");
    return pbt::main(argc, argv);
}
