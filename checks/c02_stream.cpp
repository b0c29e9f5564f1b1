// C02: splitting an input over calls never changes any output.
// Every case runs the whole input through one call and through pieces (and both against the
// reference); the grid enumerates all two-piece splits up to several blocks.
#include "../lib/drv.h"
using namespace drv;

// pieces forced by the grid (selector 0: a, b, then random extra) or drawn
static std::vector<size_t> pieces(Src& s, size_t block, size_t& n)
{
    if (s.below(2) == 0)
    {
        size_t a = s.below(4096), b = s.below(4096);
        n = a + b;
        return {a, b};
    }
    n = s.size(6000, block);
    return split(s, n, block);
}

// ---- absorbing: hash, mac -----------------------------------------------------------------
struct Absorb
{
    const char* name;
    Need need;
    size_t block;
    bytes (*whole)(const bytes& k, const bytes& m);
    bytes (*parts)(const bytes& k, const u8* m, const std::vector<size_t>& p, bool cont);
    bytes (*expect)(const bytes& k, const bytes& m);
    size_t key;
};
template<class A> bytes absorb(A& a, const u8* m, const std::vector<size_t>& p, bool cont)
{
    for (size_t k: p)
    {
        if (cont) a.update(std::span<const u8>(m, k));
        else a.update(m, k);
        m += k;
    }
    bytes d(A::digest_size);
    a.digest(d.data());
    return d;
}
template<class T> struct H
{
    static bytes whole(const bytes&, const bytes& m) { bytes d(T::digest_size); mp::hash::digest<T>(m.data(), m.size(), d.data()); return d; }
    static bytes parts(const bytes&, const u8* m, const std::vector<size_t>& p, bool cont) { mp::hash::apie<T> a; return absorb(a, m, p, cont); }
};
template<class T> struct M
{
    static bytes whole(const bytes& k, const bytes& m) { bytes d(T::digest_size); mp::mac::digest<T>(k.data(), k.size(), m.data(), m.size(), d.data()); return d; }
    static bytes parts(const bytes& k, const u8* m, const std::vector<size_t>& p, bool cont) { mp::mac::apie<T> a(k.data(), k.size()); return absorb(a, m, p, cont); }
};
template<ref::Alg A> bytes eh(const bytes&, const bytes& m) { return ref::hash(A, m); }
template<ref::Alg A> bytes em(const bytes& k, const bytes& m) { return ref::hmac(A, k, m); }
static bytes ep(const bytes& k, const bytes& m) { return ref::poly1305(k.data(), m); }
#define X(a, n, need) {"hash " #n, need, (ref::a >= ref::sha384 ? 128u : 64u), H<mp::hash_##n>::whole, H<mp::hash_##n>::parts, eh<ref::a>, 0}, \
                      {"hmac " #n, need, (ref::a >= ref::sha384 ? 128u : 64u), M<mp::mac_hmac_##n>::whole, M<mp::mac_hmac_##n>::parts, em<ref::a>, 20},
static const Absorb as[] = {
    {"poly1305", any, 16, M<mp::mac_poly_1305>::whole, M<mp::mac_poly_1305>::parts, ep, 32},
    {"poly1305_sw", any, 16, M<mp::mac_poly_1305_sw>::whole, M<mp::mac_poly_1305_sw>::parts, ep, 32},
    DRV_HASHES(X)};
static const size_t na = sizeof as / sizeof *as;
#undef X

static void absorbing(Src& s, Ctx& c)
{
    const Absorb& v = as[s.below(na)];
    size_t n;
    auto p = pieces(s, v.block, n);
    bool cont = s.below(2);
    bytes k = s.content(v.key), m = s.content(n);
    c.note("%s len=%zu pieces=%s %s", v.name, n, show(p).c_str(), cont ? "containers" : "pointers");
    if (!have(v.need)) { c.note(" (cpu lacks it)"); return; }
    c.nontrivial = p.size() > 1;
    In<u8> in(s, m);
    bytes got = v.parts(k, in.p, p, cont);
    in.check("message");
    pbt::same("split", got, v.whole(k, m), std::string(v.name) + ": pieces against one call");
    pbt::same("split-ref", got, v.expect(k, m), std::string(v.name) + ": pieces against the specification");
}
// a in [0,span), b in [0,span)
static size_t span_of(bool t) { return t ? 270 : 66; }
static std::vector<u64> pair_at(size_t i, size_t n, size_t sp, bool edges)
{
    size_t v = i % n;
    i /= n;
    size_t a = i % sp, b = i / sp;
    (void)edges;
    return {v, 0, a, b};
}
PBT_TEST("absorb", absorbing, 400000, 8000000,
         [](bool t) { return na * span_of(t) * span_of(t); },
         [](size_t i, bool t) { return pair_at(i, na, span_of(t), false); },
         200000, 4000000,
         "hash, HMAC and Poly1305 backends; grid: every backend x every first piece x every second piece (0..65 quick, 0..269 thorough); random: up to hundreds of pieces, empty ones included, by pointer or container; oracles: one call, reference; non-trivial: more than one piece");

// ---- cipher and aead ----------------------------------------------------------------------
template<class A> bytes pieces_of(A& a, const u8* in, size_t n, const std::vector<size_t>& p, const std::vector<bool>& decs, bool inplace, Src& s)
{
    (void)s;
    bytes out(n, 0x77);
    if (inplace && n) memcpy(out.data(), in, n);
    size_t pos = 0, i = 0;
    for (size_t k: p)
    {
        const u8* from = inplace ? out.data() + pos : in + pos;
        size_t r = decs[i++] ? a.decrypt(from, k, out.data() + pos) : a.encrypt(from, k, out.data() + pos);
        if (r != k) pbt::fail("stream-size", fmt("a piece of %zu bytes produced %zu bytes", k, r));
        pos += k;
        // complete when the call returns, nothing after
        for (size_t j = pos; j < n && j < pos + 80; j++)
            if (out[j] != (inplace ? in[j] : 0x77)) pbt::fail("beyond-result", fmt("byte %zu written by pieces covering %zu", j, pos));
    }
    return out;
}
struct Crypt { const char* name; Need need; void (*run)(Src&, Ctx&, const std::vector<size_t>&, size_t); };
template<class T> void cipher(Src& s, Ctx& c, const std::vector<size_t>& p, size_t n)
{
    bytes k = s.content(32), v = s.content(16), m = s.content(n);
    bool inplace = s.below(4) == 0, mix = s.below(4) == 0;
    std::vector<bool> d(p.size());
    bool dec = s.below(2);
    for (size_t i = 0; i < d.size(); i++) d[i] = mix ? s.below(2) : dec;
    c.note("%s%s", inplace ? " in-place" : "", mix ? " mixing directions" : dec ? " decrypt" : " encrypt");
    mp::cipher::apie<T> a(k.data(), k.size(), v.data(), v.size());
    In<u8> in(s, m);
    bytes got = pieces_of(a, in.p, n, p, d, inplace, s);
    in.check("input");
    u32 ctr = u32(v[0]) | u32(v[1]) << 8 | u32(v[2]) << 16 | u32(v[3]) << 24;
    pbt::same("split-ref", got, ref::chacha20(k.data(), v.data() + 4, ctr, m), "pieces against the specification");
    bytes one(n);
    mp::cipher::encrypt<T>(k.data(), k.size(), v.data(), v.size(), m.data(), n, one.data());
    pbt::same("split", got, one, "pieces against one call");
}
template<class T> void aead(Src& s, Ctx& c, const std::vector<size_t>& p, size_t n)
{
    bytes k = s.content(32), v = s.content(12), m = s.content(n);
    size_t an;
    std::vector<size_t> ap;
    if (s.below(2) == 0) { size_t a = s.below(80), b = s.below(80); ap = {a, b}; an = a + b; }
    else { an = s.size(1500, 16); ap = split(s, an, 16); }
    bytes ad = s.content(an);
    bool inplace = s.below(4) == 0, dec = s.below(2);
    c.note(" aad=%zu aad-pieces=%s%s%s", an, show(ap).c_str(), inplace ? " in-place" : "", dec ? " decrypt" : " encrypt");
    mp::aead::apie<T> a(k.data(), k.size(), v.data(), v.size());
    const u8* q = ad.data();
    for (size_t x: ap) { if (s.below(2)) a.aad(q, x); else a.aad(std::span<const u8>(q, x)); q += x; }
    In<u8> in(s, m);
    bytes got = pieces_of(a, in.p, n, p, std::vector<bool>(p.size(), dec), inplace, s);
    in.check("input");
    bytes tag(16);
    a.digest(tag.data());
    bytes want = ref::chacha20(k.data(), v.data(), 1, m);
    pbt::same("split-ref", got, want, "text pieces against the specification");
    pbt::same("split-tag-ref", tag, ref::aead_tag(k.data(), v.data(), ad, dec ? m : want), "tag of pieces against the specification");
    if (!dec)
    {
        bytes one(n), t1(16);
        mp::aead::encrypt<T>(k.data(), k.size(), v.data(), v.size(), ad.data(), an, m.data(), n, one.data(), t1.data());
        pbt::same("split", got, one, "text pieces against one call");
        pbt::same("split-tag", tag, t1, "tag of pieces against one call");
    }
}
#define X(n, need) {#n, need, cipher<mp::n>},
static const Crypt cs[] = {DRV_CIPHERS(X){"aead", any, aead<mp::aead_chacha_20_poly_1305>}, {"aead_sw", any, aead<mp::aead_chacha_20_sw_poly_1305_sw>}};
static const size_t nc = sizeof cs / sizeof *cs;
static void crypting(Src& s, Ctx& c)
{
    const Crypt& v = cs[s.below(nc)];
    size_t n;
    auto p = pieces(s, 64, n);
    c.note("%s len=%zu pieces=%s", v.name, n, show(p).c_str());
    if (!have(v.need)) { c.note(" (cpu lacks it)"); return; }
    c.nontrivial = p.size() > 1;
    v.run(s, c, p, n);
}
static const size_t second[] = {0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 319, 320, 383, 384, 447, 448, 511, 512, 513, 575, 576, 640, 768, 1023, 1024, 1025, 1100};
static const size_t nsecond = sizeof second / sizeof *second;
PBT_TEST("crypt", crypting, 300000, 6000000,
         [](bool t) { return nc * (t ? 1100 : 200) * nsecond; },
         [](size_t i, bool t) { size_t v = i % nc; i /= nc; size_t f = t ? 1100 : 200; return std::vector<u64>{v, 0, i % f, second[i / f]}; },
         150000, 3000000,
         "cipher backends and AEADs; grid: every first piece (0..199 quick, 0..1099 thorough) x second piece around block and multi-block sizes; aad split too; in-place or separate, both directions, directions mixed for the cipher; oracles: one call, reference; non-trivial: more than one piece");

// ---- key derivation in parts --------------------------------------------------------------
struct Kdf { const char* name; Need need; bytes (*run)(const bytes&, const bytes&, const std::vector<size_t>&, bytes&, bool); bytes (*expect)(const bytes&, const bytes&, size_t); };
template<class A> bytes parts_of(A& a, const std::vector<size_t>& p, bool cont)
{
    bytes r;
    for (size_t n: p)
    {
        bytes x(n, 0x77);
        if (cont) { auto v = a.template derive<bytes>(n); if (v.size() != n) pbt::fail("derive-size", "size of a part"); x = v; }
        else if (a.derive(x.data(), n) != n) pbt::fail("derive-size", "size of a part");
        r.insert(r.end(), x.begin(), x.end());
    }
    return r;
}
template<class T> bytes hk(const bytes& k, const bytes& z, const std::vector<size_t>& p, bytes& one, bool cont)
{
    mp::kdf::apie<T> a, b;
    a.initialize(k, z, z);
    b.initialize(k, z, z);
    b.derive(one.data(), one.size());
    return parts_of(a, p, cont);
}
template<class T> bytes pb(const bytes& k, const bytes& z, const std::vector<size_t>& p, bytes& one, bool cont)
{
    mp::kdf::apie<T> a, b;
    a.initialize(k, z, 2);
    b.initialize(k, z, 2);
    b.derive(one.data(), one.size());
    return parts_of(a, p, cont);
}
template<ref::Alg A> bytes ehk(const bytes& k, const bytes& z, size_t n) { return ref::hkdf(A, k, z, z, n); }
template<ref::Alg A> bytes epb(const bytes& k, const bytes& z, size_t n) { return ref::pbkdf2(A, k, z, 2, n); }
#define X(a, n, need) {"hkdf " #n, need, hk<mp::kdf_hkdf_hmac_##n>, ehk<ref::a>}, {"pbkdf2 " #n, need, pb<mp::kdf_pbkdf_2_hmac_##n>, epb<ref::a>},
static const Kdf ks[] = {DRV_HASHES(X)};
static const size_t nk = sizeof ks / sizeof *ks;
#undef X
static void deriving(Src& s, Ctx& c)
{
    const Kdf& v = ks[s.below(nk)];
    size_t n;
    std::vector<size_t> p;
    if (s.below(2) == 0)
    {
        p = {s.below(512), s.below(512)};
        if (s.below(2)) p.push_back(s.below(200));
        n = 0;
        for (size_t k: p) n += k;
    }
    else
    {
        n = s.size(2000, 32);
        p = split(s, n, 32);
    }
    bool cont = s.below(2);
    bytes k = s.content(20), z = s.content(s.below(40)), one(n);
    c.note("%s n=%zu parts=%s %s", v.name, n, show(p).c_str(), cont ? "containers" : "pointers");
    if (!have(v.need)) { c.note(" (cpu lacks it)"); return; }
    c.nontrivial = p.size() > 1;
    bytes got = v.run(k, z, p, one, cont);
    pbt::same("parts", got, one, std::string(v.name) + ": parts against one derivation");
    pbt::same("parts-ref", got, v.expect(k, z, n), std::string(v.name) + ": parts against the specification");
}
static const size_t dpoint[] = {0, 1, 2, 19, 20, 21, 27, 28, 29, 31, 32, 33, 40, 41, 47, 48, 49, 56, 57, 63, 64, 65, 83, 84, 95, 96, 97, 100, 127, 128, 129, 144, 191, 192, 193, 256};
static const size_t ndp = sizeof dpoint / sizeof *dpoint;
PBT_TEST("derive", deriving, 60000, 2000000,
         [](bool t) { return t ? nk * 130 * 130 : nk * ndp * ndp; },
         [](size_t i, bool t) {
             size_t v = i % nk;
             i /= nk;
             return t ? std::vector<u64>{v, 0, i % 130, i / 130} : std::vector<u64>{v, 0, dpoint[i % ndp], dpoint[i / ndp]}; },
         30000, 600000,
         "HKDF and PBKDF2 backends; grid: first part x second part around digest sizes (thorough: all 0..129), sometimes a third; random: many parts; oracles: one derivation, reference; non-trivial: more than one part");
