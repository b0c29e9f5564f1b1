// C37: processors whose size_t has 32 bits, C38: of other byte order, C16: the branches for constant evaluation, C40: drawn
// compiler options.
// lib/w32.cpp, compiled for one, serves requests over pipes.
#if defined(WORDS)
#define WHERE "for 32-bit processors, compiled with and without optimization and with undefined behaviour trapping"
#elif defined(ORDER)
#define WHERE "for (emulated) processors of the other byte order, of 64 and 32 bits, and with undefined behaviour trapping"
#elif defined(FLAGS)
#define WHERE "compiled with drawn options"
#else
#define WHERE "that take the branches for constant evaluation at run time, compiled with and without optimization and with undefined behaviour trapping"
#endif
#include "../lib/h.h"
#include "../lib/huge.h"
#include "../lib/huge_expected.h"
#include <csignal>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
using namespace h;
using pbt::Src; using pbt::Ctx;

struct Req { u32 op, alg, n, a, nx, ny, nz, nsplit; };
static const struct { const char *name, *path; } builds[] = {SERVERS};
struct Child { pid_t pid; int in, out; };
static const size_t nb = sizeof builds / sizeof *builds;
static Child kids[nb];
static Child& kid(size_t b)
{
    Child& k = kids[b];
    if (k.pid) return k;
    signal(SIGPIPE, SIG_IGN);
    int p[2], q[2];
    if (pipe2(p, O_CLOEXEC) || pipe2(q, O_CLOEXEC)) _exit(99);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, p[0], 0);
    posix_spawn_file_actions_adddup2(&fa, q[1], 1);
    char* argv[] = {(char*)"w32", nullptr};
    char* env[] = {nullptr};
    int e = posix_spawn(&k.pid, builds[b].path, &fa, nullptr, argv, env);
    posix_spawn_file_actions_destroy(&fa);
    close(p[0]), close(q[1]);
    if (e) { fprintf(stderr, "%s: %s\n", builds[b].path, strerror(e)); _exit(99); }
    k.in = p[1], k.out = q[0];
    return k;
}
static bool full(int fd, void* p, size_t n, bool out)
{
    while (n)
    {
        ssize_t r = out ? write(fd, p, n) : read(fd, p, n);
        if (r <= 0) return false;
        p = (u8*)p + r, n -= size_t(r);
    }
    return true;
}
static bytes ask(size_t b, Req r, const bytes& x, const bytes& y, const bytes& z, const std::vector<u32>& cut)
{
    r.nx = u32(x.size()), r.ny = u32(y.size()), r.nz = u32(z.size()), r.nsplit = u32(cut.size());
    bytes m((u8*)&r, (u8*)&r + sizeof r);
    m.insert(m.end(), x.begin(), x.end());
    m.insert(m.end(), y.begin(), y.end());
    m.insert(m.end(), z.begin(), z.end());
    m.insert(m.end(), (u8*)cut.data(), (u8*)(cut.data() + cut.size()));
    Child& k = kid(b);
    u32 n = 0;
    bytes out;
    bool ok = full(k.in, m.data(), m.size(), true) && full(k.out, &n, 4, false);
    if (ok) out.resize(n), ok = full(k.out, out.data(), n, false);
    if (ok) return out;
    close(k.in), close(k.out);
    int st;
    waitpid(k.pid, &st, 0);
    k.pid = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) >= 95 && WEXITSTATUS(st) <= 99) { fprintf(stderr, "no memory for the program (%d)\n", WEXITSTATUS(st)); _exit(99); }
    if (WIFSIGNALED(st)) pbt::fail("crash", fmt("the program died of signal %d", WTERMSIG(st)));
    pbt::fail("crash", fmt("the program ended with %d", WEXITSTATUS(st)));
    return {};
}
static std::vector<u32> cuts(Src& s, size_t n, size_t block)
{
    std::vector<u32> r;
    for (size_t k = s.below(6), left = n; k-- && left;) { size_t m = s.below(4) ? s.size(left, block) : left; r.push_back(u32(m)); left -= m; }
    return r;
}
static void prefix(const bytes& got, bytes want, size_t n, const std::string& what) { want.resize(std::min(n, want.size())); pbt::same("result", got, want, what); }

static void all(Src& s, Ctx& c)
{
    size_t k = s.below(34), b = s.below(nb);
    c.nontrivial = true;
    std::string nm;
    auto note = [&](const std::string& x) { nm = x; c.note("%s, %s", x.c_str(), builds[b].name); };
    if (k < 28)
    {
        auto a = ref::Alg(k % 7);
        size_t bs = ref::block_size(a), kind = k / 7;
        note(fmt("%s %s", kind == 0 ? "hash" : kind == 1 ? "hmac" : kind == 2 ? "hkdf" : "pbkdf2", ref::alg_name[a]));
        if (kind < 2)
        {
            bytes x = s.content(s.size(s.below(8) ? 700 : 9000, bs)), y = kind ? s.content(s.size(300, bs)) : bytes();
            u32 n = u32(s.below(70));
            auto cut = cuts(s, x.size(), bs);
            c.note(" %zu bytes, key %zu, digest %u", x.size(), y.size(), n);
            prefix(ask(b, {u32(kind), u32(a), n}, x, y, {}, cut), kind ? ref::hmac(a, y, x) : ref::hash(a, x), n, nm);
        }
        else
        {
            bytes x = s.content(s.size(200, bs)), y = s.content(s.size(200, bs)), z = kind == 2 ? s.content(s.size(200, bs)) : bytes();
            u32 n = u32(1 + s.below(kind == 2 && s.below(10) == 0 ? 255 * ref::digest_size(a) : 200)), it = u32(1 + s.below(4));
            auto cut = cuts(s, n, ref::digest_size(a));
            c.note(" %u bytes", n);
            pbt::same("result", ask(b, {u32(kind), u32(a), n, it}, x, y, z, cut), kind == 2 ? ref::hkdf(a, x, y, z, n) : ref::pbkdf2(a, x, y, it, n), nm);
        }
        return;
    }
    if (k == 28)
    {
        note("poly1305");
        bytes x = s.content(s.size(700, 16)), y = s.content(32);
        if (s.below(4) == 0) for (auto& v: x) v = s.below(8) ? 0xff : u8(s.below(256));
        auto cut = cuts(s, x.size(), 16);
        u32 n = u32(s.below(20));
        prefix(ask(b, {4, 0, n}, x, y, {}, cut), ref::poly1305(y.data(), x), n, nm);
    }
    else if (k == 29)
    {
        note("chacha20");
        bytes x = s.content(s.size(s.below(8) ? 700 : 9000, 64)), y = s.content(32), z = s.content(16);
        if (s.below(3) == 0) { u32 v = 0u - u32(s.below(80)); memcpy(z.data(), &v, 4); }
        u32 ctr, dec = u32(s.below(2));
        memcpy(&ctr, z.data(), 4);
        auto cut = cuts(s, x.size(), 64);
        pbt::same("result", ask(b, {4, 1, 0, dec}, x, y, z, cut), ref::chacha20(y.data(), z.data() + 4, ctr, x), nm);
    }
    else if (k < 32)
    {
        note("aead");
        bytes ad = s.content(s.size(300, 16)), t = s.content(s.size(1000, 64)), y = s.content(32), z = s.content(12), x = ad;
        x.insert(x.end(), t.begin(), t.end());
        u32 dec = u32(s.below(2));
        auto cut = cuts(s, t.size(), 64);
        bytes o = ref::chacha20(y.data(), z.data(), 1, t), tag = ref::aead_tag(y.data(), z.data(), ad, dec ? t : o);
        c.note(" %s %zu+%zu bytes", dec ? "decrypt" : "encrypt", ad.size(), t.size());
        o.insert(o.end(), tag.begin(), tag.end());
        pbt::same("result", ask(b, {4, 2, u32(ad.size()), dec}, x, y, z, cut), o, nm);
    }
    else
    {
        bool b64 = k == 33, enc = s.below(2);
        note(fmt("base-%s %s", b64 ? "64" : "16", enc ? "encode" : "decode"));
        bytes m = s.content(s.size(600, 3));
        std::string t = b64 ? ref::base64(m) : ref::base16(m);
        bytes tb(t.begin(), t.end());
        if (enc) pbt::same("result", ask(b, {6, b64}, m, {}, {}, {}), tb, nm);
        else
        {
            if (!tb.empty() && s.below(2)) tb[s.below(tb.size())] = u8(s.below(256));
            bytes want;
            bool ok = b64 ? ref::unbase64(std::string(tb.begin(), tb.end()), want) : ref::unbase16(std::string(tb.begin(), tb.end()), want);
            bytes got = ask(b, {7, b64}, tb, {}, {}, {});
            // a character may have become other leftover bits, about which the decoder decides
            if (!ok && b64 && !got.empty() && !got[0] && tb.size() % 4 == 0 && tb.back() == '=') return;
            if (!ok && !got.empty() && got[0]) return;
            want.insert(want.begin(), ok ? 0 : 1);
            pbt::same("result", got, want, nm + " of " + pbt::hex(tb, 60));
        }
    }
}
PBT_TEST("all", all, 1200000, 6000000, [](bool t) { return size_t(34 * nb * (t ? 300 : 40)); }, [](size_t i, bool) { return std::vector<u64>{i % 34, i / 34 % nb}; }, 0, 0,
         "every algorithm (classes), with drawn splittings, in programs " WHERE "; inputs end where memory ends; oracle: reference; all non-trivial");

#ifndef WORDS
static void forms(Src& s, Ctx& c)
{
    size_t k = s.below(34), b = s.below(nb);
    if (!strncmp(builds[b].name, "32 bits", 7)) b = 0;         // has no containers
    u32 type = u32(s.below(3));
    c.nontrivial = true;
    std::string nm;
    auto note = [&](const std::string& x) { nm = x; c.note("%s, byte type %u, %s", x.c_str(), type, builds[b].name); };
    auto join = [](std::initializer_list<bytes> l) { bytes r; for (auto& x: l) r.insert(r.end(), x.begin(), x.end()); return r; };
    auto first = [](bytes v, size_t n) { v.resize(std::min(n, v.size())); return v; };
    auto same = [&](const bytes& got, const bytes& want) { pbt::same("result", got, want, nm); };
    if (k < 28)
    {
        auto a = ref::Alg(k % 7);
        size_t bs = ref::block_size(a), kind = k / 7;
        note(fmt("%s %s", kind == 0 ? "hash" : kind == 1 ? "hmac" : kind == 2 ? "hkdf" : "pbkdf2", ref::alg_name[a]));
        bytes x = s.content(s.size(kind < 2 ? 700 : 200, bs)), y = kind ? s.content(s.size(300, bs)) : bytes(), z = kind == 2 ? s.content(s.size(200, bs)) : bytes();
        u32 n = u32(s.below(kind < 2 ? 70 : 200)), it = kind == 3 ? u32(1 + s.below(4)) : 0;
        if (kind > 1 && !n) n = 1;
        auto cut = cuts(s, kind < 2 ? x.size() : n, kind < 2 ? bs : ref::digest_size(a));
        bytes d = kind == 0 ? ref::hash(a, x) : kind == 1 ? ref::hmac(a, y, x) : kind == 2 ? ref::hkdf(a, x, y, z, n) : ref::pbkdf2(a, x, y, it, n);
        bytes got = ask(b, {u32(11 + kind), u32(a), n, type + 3 * it}, x, y, z, cut);
        same(got, kind < 2 ? join({first(d, n), d, d}) : join({d, d}));
        return;
    }
    if (k == 28)
    {
        note("poly1305");
        bytes x = s.content(s.size(700, 16)), y = s.content(32);
        if (s.below(4) == 0) for (auto& v: x) v = s.below(8) ? 0xff : u8(s.below(256));
        auto cut = cuts(s, x.size(), 16);
        u32 n = u32(s.below(20));
        bytes d = ref::poly1305(y.data(), x);
        same(ask(b, {15, 0, n, type}, x, y, {}, cut), join({first(d, n), d, d}));
    }
    else if (k == 29)
    {
        note("chacha20");
        bytes x = s.content(s.size(700, 64)), y = s.content(32), z = s.content(16);
        if (s.below(3) == 0) { u32 v = 0u - u32(s.below(80)); memcpy(z.data(), &v, 4); }
        u32 ctr, dec = u32(s.below(2));
        memcpy(&ctr, z.data(), 4);
        auto cut = cuts(s, x.size(), 64);
        bytes o = ref::chacha20(y.data(), z.data() + 4, ctr, x);
        same(ask(b, {16, dec, 0, type}, x, y, z, cut), join({o, o}));
    }
    else if (k < 32)
    {
        note(k == 30 ? "aead encryption" : "aead decryption");
        bytes ad = s.content(s.size(300, 16)), t = s.content(s.size(1000, 64)), y = s.content(32), z = s.content(12), x = ad;
        bytes o = ref::chacha20(y.data(), z.data(), 1, t), tag = ref::aead_tag(y.data(), z.data(), ad, o);
        if (k == 30)
        {
            x.insert(x.end(), t.begin(), t.end());
            auto cut = cuts(s, t.size(), 64);
            same(ask(b, {17, 0, u32(ad.size()), type}, x, y, z, cut), join({o, tag, o, tag}));
        }
        else
        {
            x.insert(x.end(), o.begin(), o.end());
            x.insert(x.end(), tag.begin(), tag.end());
            u32 n = u32(ad.size());
            bool wrong = s.below(2);
            if (wrong) { size_t i = s.below(2) ? x.size() - 1 - s.below(16) : s.below(x.size()); x[i] ^= u8(1u << s.below(8)); }
            c.note(" %s", wrong ? "altered" : "genuine");
            bytes got = ask(b, {18, 0, n, type}, x, y, z, {});
            same(got, wrong ? bytes{1, 1} : join({{0}, t, {0}, t}));
        }
    }
    else
    {
        bool b64 = k == 33, enc = s.below(2);
        note(fmt("base-%s %s", b64 ? "64" : "16", enc ? "encode" : "decode"));
        bytes m = s.content(s.size(600, 3));
        std::string t = b64 ? ref::base64(m) : ref::base16(m);
        bytes tb(t.begin(), t.end());
        if (enc) return same(ask(b, {19, b64, 0, type}, m, {}, {}, {}), join({tb, tb}));
        size_t tail = b64 && tb.size() > 4 ? 4 : 0;           // the last group's leftover bits are C12's
        if (tb.size() > tail && s.below(2)) tb[s.below(tb.size() - tail)] = u8(s.below(256));
        bytes want;
        bool ok = b64 ? ref::unbase64(std::string(tb.begin(), tb.end()), want) : ref::unbase16(std::string(tb.begin(), tb.end()), want);
        if (!ok && b64 && tb.size() <= 4) return;
        want.insert(want.begin(), 0);
        same(ask(b, {20, b64, 0, type}, tb, {}, {}, {}), ok ? join({want, want}) : bytes{1, 1});
    }
}
PBT_TEST("forms", forms, 600000, 6000000, [](bool t) { return size_t(34 * nb * (t ? 100 : 20)); }, [](size_t i, bool) { return std::vector<u64>{i % 34, i / 34 % nb}; }, 0, 0,
         "the same through containers of every byte type, one-call forms and verification; all non-trivial");
#endif
#ifdef WORDS
static void size_queries(Src& s, Ctx& c)
{
    bool b64 = s.below(2), dec = s.below(2);
    size_t b = s.below(nb);
    u64 top = 0x7fffffff, n;                 // larger objects do not exist for the compiler
    switch (s.below(4))
    {
    case 0: n = s.below(top); break;
    case 1: n = s.below(5000); break;
    case 2: { u64 e = 1 + s.below(31); n = (u64(1) << e) + s.below(41); n = n > 20 ? n - 20 : 0; break; }
    default: { static const u64 at[] = {0x40000000, 0x55555555, 0x5fffffff, 0x7fffffff}; n = at[s.below(4)] + s.below(41) - 20; }
    }
    if (!dec) top = b64 ? 0x7fffffffu / 4 * 3 : 0x3fffffff;
    if (n > top) n = top;
    if (dec) n &= b64 ? ~3ull : ~1ull;
    size_t pad = dec && b64 && n ? s.below(3) : 0;
    bytes tail(std::min<u64>(n, 4), 'A');
    for (size_t i = 0; i < pad; i++) tail[tail.size() - 1 - i] = '=';
    c.note("base-%s %s_size of %llu, %zu padding, %s", b64 ? "64" : "16", dec ? "decode" : "encode", (unsigned long long)n, pad, builds[b].name);
    c.nontrivial = n > 0;
    u64 want = dec ? b64 ? n / 4 * 3 - pad : n / 2 : b64 ? (n + 2) / 3 * 4 : n * 2;
    bytes got = ask(b, {8, b64, u32(n), dec}, tail, {}, {}, {});
    u32 g;
    memcpy(&g, got.data(), 4);
    if (g != want) pbt::fail(fmt("size-%s-%s", b64 ? "64" : "16", dec ? "decode" : "encode"), fmt("is said to be %u, is %llu", g, (unsigned long long)want));
}
PBT_TEST("sizes", size_queries, 100000, 1000000, [](bool) { return size_t(4000); }, [](size_t i, bool) { return std::vector<u64>{i % 2, i / 2 % 2, i / 4 % 3}; }, 0, 0,
         "sizes of encodings and decodings of inputs and outputs up to 2 GiB; non-trivial: not empty");

static void big(Src& s, Ctx& c)
{
    size_t li = s.below(4), k = s.below(11);
    u64 n = huge::lengths[li];
    std::vector<u32> cut;
    for (size_t i = s.below(3); i--;) cut.push_back(u32(s.below(4) ? s.below(1u << 31) : s.below(200)));
    std::string what = k < 7 ? ref::alg_name[k] : k == 7 ? "poly1305" : k == 8 ? "aead associated data" : k == 9 ? "aead decryption" : "aead encryption";
    c.note("%s of %llu bytes, pieces", what.c_str(), (unsigned long long)n);
    for (u32 x: cut) c.note(" %u", x);
    c.nontrivial = true;
    bytes key = huge::key(), iv(12);
    const u8* w = (const u8*)(k < 7 ? huge::x_hash[k][li] : k == 7 ? huge::x_poly[0][li] : k == 8 ? huge::x_aad[0][li] : k == 9 ? huge::x_dec[0][li] : huge::x_text[0][li]);
    bytes want(w, w + (k < 7 ? ref::digest_size(ref::Alg(k)) : 16));
    pbt::same("huge", k < 7 ? ask(0, {9, u32(k), u32(n), u32(n >> 32)}, {}, {}, {}, cut) : ask(0, {10, u32(k - 7), u32(n), u32(n >> 32)}, {}, key, k == 7 ? bytes() : iv, cut), want, what);
}
PBT_TEST("huge", big, 0, 0, [](bool t) { return size_t(t ? 88 : 11); }, [](size_t i, bool t) { return std::vector<u64>{t ? i / 11 % 4 : 3, 10 - i % 11}; }, 0, 0,
         "messages around 2^29, 2^31 and above 2^32 bytes (quick: the last), in drawn pieces of up to 2 GiB; all non-trivial", 600);
#endif
