// C05: Poly1305 equals RFC 8439, computed here over arbitrary-precision integers.
#include "../lib/drv.h"
#include "../lib/huge.h"
#include "../lib/huge_expected.h"
#include <boost/multiprecision/cpp_int.hpp>
using namespace drv;
using big = boost::multiprecision::cpp_int;

static const big P = (big(1) << 130) - 5;
static big le(const u8* p, size_t n) { big r = 0; for (size_t i = n; i--;) r = (r << 8) | p[i]; return r; }
static bytes put(big v, size_t n) { bytes r(n); for (size_t i = 0; i < n; i++) { r[i] = u8(v & 255); v >>= 8; } return r; }
static big clamp(const u8* k)
{
    u8 t[16];
    memcpy(t, k, 16);
    for (int i: {3, 7, 11, 15}) t[i] &= 15;
    for (int i: {4, 8, 12}) t[i] &= 252;
    return le(t, 16);
}
static bytes poly(const bytes& k, const bytes& m, big* acc = nullptr)
{
    big r = clamp(k.data()), h = 0;
    for (size_t i = 0; i < m.size(); i += 16)
    {
        size_t n = std::min<size_t>(16, m.size() - i);
        h = (h + le(m.data() + i, n) + (big(1) << (8 * n))) * r % P;
    }
    if (acc) *acc = h;
    return put(h + le(k.data() + 16, 16), 16);
}

// 16 bytes with structure: all ones or zeros per limb of common widths, single bits, near-edges
static bytes block16(Src& s)
{
    bytes b(16, 0);
    switch (s.below(7))
    {
    case 0: return b;
    case 1: return bytes(16, 0xff);
    case 2: return s.content(16);
    case 3:
    {
        size_t w = s.pick(std::vector<size_t>{26, 32, 44, 22, 64, 8});
        u64 pat = s.bits64();
        for (size_t i = 0; i < 128; i++) if (pat >> (i / w % 64) & 1) b[i / 8] |= u8(1 << i % 8);
        return b;
    }
    case 4: { size_t i = s.below(128); b[i / 8] = u8(1 << i % 8); return b; }
    case 5: { size_t i = s.below(128); b.assign(16, 0xff); b[i / 8] ^= u8(1 << i % 8); return b; }
    default: b.assign(16, 0xff); b[0] = u8(0xff - s.below(16)); return b;
    }
}
static bytes cat3(const bytes& a, const bytes& b) { return h::cat(a, b); }

template<class T> static bytes run(Src& s, Ctx& c, const bytes& k, const bytes& m)
{
    return with_byte(s, [&](auto t) { return mac_once<T, typename decltype(t)::type>(s, c, k, m, 16); });
}
static void check(Src& s, Ctx& c, const bytes& k, const bytes& m)
{
    bool sw = s.below(3) == 2;
    c.note(" %s", sw ? "sw" : "default");
    c.nontrivial = !m.empty();
    bytes got = sw ? run<mp::mac_poly_1305_sw>(s, c, k, m) : run<mp::mac_poly_1305>(s, c, k, m);
    want_prefix("tag", got, poly(k, m), "poly1305 key " + pbt::hex(k) + " message " + pbt::hex(m, 200));
}

static void lengths(Src& s, Ctx& c)
{
    size_t n = length(s, 3000, 16);
    bytes k = s.content(32), m = s.content(n);
    c.note("len=%zu", n);
    check(s, c, k, m);
}
PBT_TEST("lengths", lengths, 120000, 2000000,
         [](bool t) { return size_t(t ? 2000 : 600); },
         [](size_t i, bool) { return std::vector<u64>{0, i}; },
         60000, 1000000, "key and message patterns, every length in the grid, call form, byte type, splitting, truncation; non-trivial: non-empty message");

static void edges(Src& s, Ctx& c)
{
    bytes k = cat3(block16(s), block16(s)), m;
    size_t n = 1 + s.below(12);
    for (size_t i = 0; i < n; i++) m = cat3(m, block16(s));
    if (s.below(2)) m.resize(m.size() - s.below(16));
    c.note("structured blocks=%zu len=%zu", n, m.size());
    check(s, c, k, m);
}
PBT_TEST("edges", edges, 250000, 5000000, nullptr, nullptr, 60000, 1000000,
         "key halves and message blocks made of limb patterns, single bits, all ones/zeros and values next to 2^128; all non-trivial");

// final accumulator aimed at a chosen residue: a last block is solved for it
static void aimed(Src& s, Ctx& c)
{
    bytes k = cat3(block16(s), block16(s));
    big r = clamp(k.data());
    if (r == 0) { k[0] = 1; r = clamp(k.data()); }
    big inv = powm(r, big(P - 2), P);
    bytes m;
    size_t pre = s.below(4);
    for (size_t i = 0; i < pre; i++) m = cat3(m, block16(s));
    big h0;
    poly(k, m, &h0);
    big target;
    u64 kind = s.below(6), off = s.below(12);
    switch (kind)
    {
    case 0: target = off; break;                               // p+off before the last reduction
    case 1: target = P - 1 - off; break;
    case 2: target = (big(1) << 128) + off - 6; break;
    case 3: target = (big(1) << 129) + off - 6; break;
    case 4: target = (big(3) << 128) + off - 6; break;
    default: { big sv = le(k.data() + 16, 16); target = (big(1) << 128) - sv + off - 6; break; }   // carry out of h + s
    }
    target = (target % P + P) % P;
    // a chosen block before the last leaves freedom to find a last block below 2^128
    for (int tries = 0; tries < 40; tries++)
    {
        bytes mid = tries == 0 && s.below(2) ? bytes() : (tries < 2 ? block16(s) : s.content(16));
        bytes mm = cat3(m, mid);
        poly(k, mm, &h0);
        big v = ((target * inv - h0) % P + P) % P;
        big one = big(1) << 128;
        if (v >= one && v < 2 * one)
        {
            mm = cat3(mm, put(v - one, 16));
            big hf;
            poly(k, mm, &hf);
            if (hf != target) { fprintf(stderr, "harness: aim missed\n"); abort(); }
            c.note("aimed kind=%d off=%d blocks=%zu", int(kind), int(off), mm.size() / 16);
            c.label("aimed");
            check(s, c, k, mm);
            return;
        }
    }
    c.note("no solution");
}
PBT_TEST("aimed", aimed, 60000, 1500000, [](bool) { return size_t(6 * 12 * 8); },
         [](size_t i, bool) { (void)i; return std::vector<u64>{}; }, 0, 0,
         "the last block is solved so that the final sum is next to 0, p, 2^128, 2^129, 3*2^128, or makes h+s carry; non-trivial: a solution exists");

static void huge_(Src& s, Ctx& c)
{
    size_t li = s.below(4), n = huge::lengths[li];
    auto cut = huge::cuts(s, n);
    c.note("poly len=%zu pieces=%s", n, show(cut).c_str());
    c.nontrivial = true;
    bytes k = huge::key(), d(16);
    mp::mac::apie<mp::mac_poly_1305> a(k.data(), k.size());
    const u8* p = huge::in();
    for (size_t x: cut) a.update(p, x), p += x;
    a.digest(d.data());
    const u8* w = (const u8*)huge::x_poly[0][li];
    pbt::same("tag-huge", d, bytes(w, w + 16), "poly1305 of a huge message");
}
PBT_TEST("huge", huge_, 0, 0, [](bool t) { return size_t(t ? 16 : 4); },
         [](size_t i, bool) { return std::vector<u64>{i % 4}; }, 0, 0, "messages around 2^29, 2^31 and above 2^32 bytes; all non-trivial", 400);

static void wide_(Src& s, Ctx& c)
{
    size_t n = wide(s, c);
    bytes k = s.content(32), m = s.content(n);
    c.note("len=%zu", n);
    c.nontrivial = true;
    bytes got = s.below(2) ? run<mp::mac_poly_1305_sw>(s, c, k, m) : run<mp::mac_poly_1305>(s, c, k, m);
    want_prefix("tag", got, ref::poly1305(k.data(), m), fmt("poly1305 of %zu bytes", n));
}
PBT_TEST("wide", wide_, 0, 20000, [](bool t) { return 8 * wide_count(t); }, [](size_t i, bool) { return std::vector<u64>{i / 8}; }, 0, 0,
         "messages next to every power of two from 2^8 to 2^18 (thorough: 2^20) bytes; all non-trivial");
