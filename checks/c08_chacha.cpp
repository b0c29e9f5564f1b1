// C08: ChaCha20 equals RFC 8439 (32-bit counter wrapping on its own), decryption inverts it.
#include "../lib/drv.h"
#include "../lib/huge.h"
using namespace drv;

struct V
{
    const char* name;
    Need need;
    bytes (*run)(Src&, Ctx&, const bytes&, const bytes&, const bytes&, bool);
    void (*big)(Src&, Ctx&, size_t);
};
template<class T> bytes run(Src& s, Ctx& c, const bytes& k, const bytes& v, const bytes& m, bool dec)
{
    return with_byte(s, [&](auto t) { return cipher_once<T, typename decltype(t)::type>(s, c, k, v, m, dec); });
}
// one huge message; the output region wraps onto one mebibyte, so its last mebibyte remains
template<class T> void big(Src& s, Ctx& c, size_t li)
{
    size_t n = huge::lengths[li];
    auto cut = huge::cuts(s, n);
    u32 ctr = s.below(2) ? u32(s.bits64()) : 0;
    bytes k = huge::key(), v(16, 9);
    for (int i = 0; i < 4; i++) v[i] = u8(ctr >> (8 * i));
    c.note(" len=%zu counter=%08x pieces=%s", n, ctr, show(cut).c_str());
    const u8* in = huge::in();
    u8* out = huge::out();
    mp::cipher::apie<T> a(k.data(), k.size(), v.data(), v.size());
    size_t pos = 0;
    for (size_t x: cut)
    {
        size_t r = a.encrypt(in + pos, x, out + pos);
        if (r != x) pbt::fail("stream-size", fmt("a piece of %zu bytes produced %zu", x, r));
        pos += x;
    }
    // bytes [n - 1 MiB, n)
    size_t from = n - huge::MB, skip = from % 64;
    bytes src(huge::MB + skip), want(huge::MB + skip);
    for (size_t i = 0; i < src.size(); i++) src[i] = huge::at(from - skip + i);
    ref::chacha20_xor(k.data(), v.data() + 4, ctr + u32((from - skip) / 64), src.data(), want.data(), src.size());
    for (size_t i = 0; i < huge::MB; i++)
        if (out[from + i] != want[skip + i]) pbt::fail("stream-huge", fmt("byte %zu of a %zu byte message differs", from + i, n));
}
#define X(n, need) {#n, need, run<mp::n>, big<mp::n>},
static const V vs[] = {DRV_CIPHERS(X)};
static const size_t nv = sizeof vs / sizeof *vs;

static bytes iv(Src& s, Ctx& c, size_t n)
{
    bytes v = s.content(16);
    u32 ctr;
    switch (s.below(5))
    {
    case 0: ctr = u32(s.below(4)); break;
    case 1: ctr = u32(0) - u32(s.below(40)); break;                      // wraps after a few blocks
    case 2: ctr = u32(0) - u32(s.below(n / 64 + 2)); break;              // wraps inside the message
    case 3: ctr = u32(1) << s.below(32); ctr -= u32(s.below(20)); break; // carries between bytes
    default: ctr = u32(s.bits64());
    }
    for (int i = 0; i < 4; i++) v[i] = u8(ctr >> (8 * i));
    c.note(" counter=%08x", ctr);
    if (n && ctr + u32((n - 1) / 64) < ctr) c.label("wraps");
    return v;
}
static u32 counter(const bytes& v) { return u32(v[0]) | u32(v[1]) << 8 | u32(v[2]) << 16 | u32(v[3]) << 24; }

static void conf(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    size_t n = length(s, 8000, 64);
    c.note("%s len=%zu", v.name, n);
    bytes k = s.content(32), i = iv(s, c, n), m = s.content(n);
    if (!have(v.need)) { c.note(" (cpu lacks it)"); return; }
    c.nontrivial = n > 0;
    bool dec = s.below(2);
    c.note("%s", dec ? " decrypt" : " encrypt");
    bytes got = v.run(s, c, k, i, m, dec);
    pbt::same("stream", got, ref::chacha20(k.data(), i.data() + 4, counter(i), m), fmt("%s key %s iv %s", v.name, pbt::hex(k).c_str(), pbt::hex(i).c_str()));
}
PBT_TEST("chacha", conf, 350000, 8000000,
         [](bool t) { return nv * (t ? 4096 : 1500); },
         [](size_t i, bool t) { return std::vector<u64>{i % nv, 0, i / nv % (t ? 4096 : 1500)}; },
         150000, 3000000,
         "backend, length (grid: every length), key, counter (aimed to wrap inside the message or carry between bytes), nonce, direction, call form, splitting, in-place, byte type, alignment and guard pages; non-trivial: non-empty input on a supported CPU");

// counters: every backend, wrap at every distance
static void wrap(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    u32 ctr = u32(0) - u32(s.below(64));
    size_t n = s.below(64) * 64 + s.below(64);
    bytes k = s.content(32), i = s.content(16), m = s.content(n);
    for (int b = 0; b < 4; b++) i[b] = u8(ctr >> (8 * b));
    c.note("%s counter=%08x len=%zu", v.name, ctr, n);
    if (!have(v.need)) return;
    c.nontrivial = n > 0;
    if (n && ctr + u32((n - 1) / 64) < ctr) c.label("wraps");
    bytes got = v.run(s, c, k, i, m, s.below(2));
    pbt::same("stream", got, ref::chacha20(k.data(), i.data() + 4, ctr, m), fmt("%s key %s iv %s", v.name, pbt::hex(k).c_str(), pbt::hex(i).c_str()));
}
PBT_TEST("wrap", wrap, 60000, 1000000,
         [](bool t) { return nv * (t ? 64 * 64 : 40 * 24); },
         [](size_t i, bool t) { size_t a = t ? 64 : 40; return std::vector<u64>{i % nv, i / nv % a, i / nv / a}; }, 0, 0,
         "counter 0..63 below the wrap x number of blocks, every backend; non-trivial: non-empty");

static void round_trip(Src& s, Ctx& c)
{
    const V &v = vs[s.below(nv)], &w = vs[s.below(nv)];
    size_t n = s.size(6000, 64);
    c.note("%s -> %s len=%zu", v.name, w.name, n);
    // short keys and initialization vectors are allowed as well: both sides must agree
    bytes k = s.content(s.below(4) ? 32 : s.below(33)), i = s.content(s.below(4) ? 16 : s.below(17)), m = s.content(n);
    if (!have(v.need) || !have(w.need)) return;
    c.nontrivial = n > 0;
    bytes e = v.run(s, c, k, i, m, false);
    pbt::same("round-trip", w.run(s, c, k, i, e, true), m, "decrypt(encrypt(x))");
}
PBT_TEST("round-trip", round_trip, 120000, 2000000, nullptr, nullptr, 0, 0,
         "encrypting with one backend and pieces, decrypting with another; non-trivial: non-empty");

static void huge_(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    size_t li = s.below(4);
    c.note("%s", v.name);
    if (!have(v.need)) return;
    c.nontrivial = true;
    v.big(s, c, li);
}
PBT_TEST("huge", huge_, 0, 0, [](bool t) { return nv * (t ? 12 : 2); },
         [](size_t i, bool t) { return std::vector<u64>{i % nv, t ? i / nv % 4 : (i / nv % 2 ? 3 : 1)}; }, 0, 0,
         "messages above 2^29 and 2^32 bytes, cut into random pieces; all non-trivial", 400);

static void wide_(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    size_t n = wide(s, c);
    c.note("%s len=%zu", v.name, n);
    bytes k = s.content(32), i = iv(s, c, n), m = s.content(n);
    if (!have(v.need)) return;
    c.nontrivial = true;
    pbt::same("stream", v.run(s, c, k, i, m, s.below(2)), ref::chacha20(k.data(), i.data() + 4, counter(i), m), fmt("%s of %zu bytes", v.name, n));
}
PBT_TEST("wide", wide_, 0, 20000, [](bool t) { return nv * 4 * wide_count(t); }, [](size_t i, bool) { return std::vector<u64>{i % nv, i / nv / 4}; }, 0, 0,
         "messages next to every power of two from 2^8 to 2^18 (thorough: 2^20) bytes, every backend; all non-trivial");
