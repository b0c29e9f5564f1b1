// C04: HMAC equals RFC 2104.
#include "../lib/drv.h"
#include "../lib/huge.h"
#include "../lib/huge_expected.h"
using namespace drv;

struct V
{
    const char* name;
    ref::Alg alg;
    Need need;
    bytes (*run)(Src&, Ctx&, const bytes&, const bytes&);
    bytes (*big)(const std::vector<size_t>&);
};
template<class T> bytes run(Src& s, Ctx& c, const bytes& k, const bytes& m)
{
    return with_byte(s, [&](auto t) { return mac_once<T, typename decltype(t)::type>(s, c, k, m, T::digest_size > 32 ? 128 : 64); });
}
template<class T> bytes big(const std::vector<size_t>& cut)
{
    bytes k = huge::key(), d(T::digest_size);
    mp::mac::apie<T> a(k.data(), k.size());
    const u8* p = huge::in();
    for (size_t n: cut) a.update(p, n), p += n;
    a.digest(d.data());
    return d;
}
#define X(a, n, need) {#n, ref::a, need, run<mp::mac_hmac_##n>, big<mp::mac_hmac_##n>},
static const V vs[] = {DRV_HASHES(X)};
static const size_t nv = sizeof vs / sizeof *vs;

static void conf(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    size_t bs = ref::block_size(v.alg);
    size_t kn = length(s, 1000, bs), n = length(s, 5000, bs);
    bytes k = s.content(kn), m = s.content(n);
    if (kn && s.below(4) == 0) k[kn - 1] = 0;      // zero padding must not be confused with it
    c.note("%s key=%zu len=%zu", v.name, kn, n);
    if (kn > bs) c.label("long-key");
    else if (kn == bs) c.label("block-key");
    if (!have(v.need)) { c.note(" (cpu lacks it)"); return; }
    c.nontrivial = kn > 0;
    bytes got = v.run(s, c, k, m);
    want_prefix("tag", got, ref::hmac(v.alg, k, m), std::string("hmac ") + v.name + " key " + pbt::hex(k) + " message " + pbt::hex(m));
}
static const size_t mlen[] = {0, 1, 55, 56, 64, 111, 112, 128, 200};
PBT_TEST("hmac", conf, 400000, 8000000,
         [](bool t) { return nv * (t ? 600 : 301) * 9; },
         [](size_t i, bool t) { size_t v = i % nv; i /= nv; size_t f = t ? 600 : 301; return std::vector<u64>{v, 0, i % f, 0, mlen[i / f]}; },
         150000, 4000000,
         "backend, key and message lengths (grid: every key length 0..300 x messages around padding edges; random: biased to block edges), call form, byte type, splitting, truncation, reuse with another key; non-trivial: non-empty key on a supported CPU");

static void huge_(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    size_t li = s.below(4), n = huge::lengths[li];
    auto cut = huge::cuts(s, n);
    c.note("hmac %s len=%zu pieces=%s", v.name, n, show(cut).c_str());
    if (!have(v.need)) return;
    c.nontrivial = true;
    const u8* w = (const u8*)huge::x_hmac[v.alg][li];
    bytes got = v.big(cut);
    pbt::same("tag-huge", got, bytes(w, w + got.size()), std::string("hmac ") + v.name + " of a huge message");
}
PBT_TEST("huge", huge_, 0, 0,
         [](bool t) { return t ? nv * 4 : nv; },
         [](size_t i, bool) { return std::vector<u64>{i % nv, (i / nv + 1) % 4}; },
         0, 0, "every backend with messages above 2^29 bytes (thorough: also above 2^31 and 2^32); all non-trivial", 400);

static void wide_(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    bool key = s.below(2);
    size_t n = wide(s, c), o = s.below(200);
    bytes k = s.content(key ? n : o), m = s.content(key ? o : n);
    c.note("%s key=%zu len=%zu", v.name, k.size(), m.size());
    if (!have(v.need)) return;
    c.nontrivial = true;
    bytes got = v.run(s, c, k, m);
    want_prefix("tag", got, ref::hmac(v.alg, k, m), fmt("hmac %s key of %zu bytes, message of %zu", v.name, k.size(), m.size()));
}
PBT_TEST("wide", wide_, 0, 20000, [](bool t) { return nv * 2 * wide_count(t); }, [](size_t i, bool) { return std::vector<u64>{i % nv, i / nv % 2, i / nv / 2}; }, 0, 0,
         "keys and messages next to every power of two from 2^8 to 2^18 (thorough: 2^20) bytes, every backend; all non-trivial");

// a key above 2^29 and 2^32 bytes counts as its hash
template<class T> bytes bigkey(size_t n, const bytes& m)
{
    bytes d(T::digest_size);
    mp::mac::apie<T> a(huge::in(), n);
    a.update(m.data(), m.size());
    a.digest(d.data());
    return d;
}
#undef X
#define X(a, n, need) bigkey<mp::mac_hmac_##n>,
static bytes (*const bigkeys[])(size_t, const bytes&) = {DRV_HASHES(X)};
static size_t find(const char* n) { size_t i = 0; while (strcmp(vs[i].name, n)) i++; return i; }
static void huge_key(Src& s, Ctx& c)
{
    size_t vi = s.below(nv);
    const V& v = vs[vi];
    size_t li = s.below(4), n = huge::lengths[li];
    bytes m = s.content(s.below(100));
    c.note("hmac %s key=%zu", v.name, n);
    if (!have(v.need)) return;
    c.nontrivial = true;
    const u8* w = (const u8*)huge::x_hash[v.alg][li];
    pbt::same("tag-huge-key", bigkeys[vi](n, m), ref::hmac(v.alg, bytes(w, w + ref::digest_size(v.alg)), m), std::string("hmac ") + v.name + " with a huge key");
}
PBT_TEST("huge-key", huge_key, 0, 0,
         [](bool t) { return t ? nv * 4 : size_t(3); },
         [](size_t i, bool t) { static const size_t few[] = {find("sha_1_160"), find("sha_2_256"), find("sha_2_512")}; return std::vector<u64>{t ? i % nv : few[i], t ? i / nv % 4 : 3}; },
         0, 0, "keys above 2^32 bytes (thorough: every backend, also above 2^29 and 2^31); all non-trivial", 400);
