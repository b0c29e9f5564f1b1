// C06, C07: inputs above 2^32 bytes.  The hash of a huge key and the HMAC of a huge message are
// what C01 and C04 judge; here they are composed as the standards say.
#include "../lib/drv.h"
#include "../lib/huge.h"
#include "../lib/huge_expected.h"
using namespace drv;

template<class M> bytes mac(const bytes& key, std::span<const u8> big, const bytes& tail)
{
    bytes d(M::digest_size);
    mp::mac::apie<M> a(key);
    a.update(big);
    a.update(tail);
    a.digest(d.data());
    return d;
}
struct V { const char* name; ref::Alg alg; Need need; bytes (*run)(std::span<const u8>, std::span<const u8>, std::span<const u8>, size_t, u64); bytes (*hm)(const bytes&, std::span<const u8>, const bytes&); };
#ifdef HKDF
template<class T> bytes run(std::span<const u8> i, std::span<const u8> s, std::span<const u8> f, size_t n, u64 form)
{
    bytes r(n);
    switch (form)
    {
    case 0: mp::kdf::derive<T>(i.data(), i.size(), s.data(), s.size(), f.data(), f.size(), r.data(), n); break;
    case 1: mp::kdf::derive<T>(i, s, f, r, n); break;
    default: { mp::kdf::apie<T> a(i.data(), i.size(), s.data(), s.size(), f.data(), f.size()); a.derive(r.data(), n); }
    }
    return r;
}
#define X(a, n, need) {#n, ref::a, need, run<mp::kdf_hkdf_hmac_##n>, mac<mp::mac_hmac_##n>},
#else
template<class T> bytes run(std::span<const u8> i, std::span<const u8> s, std::span<const u8>, size_t n, u64 form)
{
    bytes r(n);
    switch (form)
    {
    case 0: mp::kdf::derive<T>(i.data(), i.size(), s.data(), s.size(), 2, r.data(), n); break;
    case 1: mp::kdf::derive<T>(i, s, 2, r, n); break;
    default: { mp::kdf::apie<T> a(i.data(), i.size(), s.data(), s.size(), 2); a.derive(r.data(), n); }
    }
    return r;
}
#define X(a, n, need) {#n, ref::a, need, run<mp::kdf_pbkdf_2_hmac_##n>, mac<mp::mac_hmac_##n>},
#endif
static const V vs[] = {DRV_HASHES(X)};
static const size_t nv = sizeof vs / sizeof *vs;
static size_t find(const char* n) { size_t i = 0; while (strcmp(vs[i].name, n)) i++; return i; }

static void big(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    u64 part = s.below(3), form = s.below(3), li = s.below(4);
    size_t n = huge::lengths[li], ds = ref::digest_size(v.alg), len = 1 + s.below(2 * ds);
#ifndef HKDF
    part %= 2;
    len = std::min(len, ds);
#endif
    std::span<const u8> h(huge::in(), n);
    bytes a = huge::key(), b = s.content(s.below(100)), want;
    c.note("%s part=%d of %zu bytes form=%d n=%zu", v.name, int(part), n, int(form), len);
    if (!have(v.need)) return;
    c.nontrivial = true;
    auto hashed = [&] { const u8* w = (const u8*)huge::x_hash[v.alg][li]; return bytes(w, w + ds); };
    auto maced = [&] { const u8* w = (const u8*)huge::x_hmac[v.alg][li]; return bytes(w, w + ds); };
    bytes got;
#ifdef HKDF
    got = part == 0 ? v.run(h, a, b, len, form) : part == 1 ? v.run(b, h, a, len, form) : v.run(a, b, h, len, form);
    bytes prk = part == 0 ? maced() : part == 1 ? ref::hmac(v.alg, hashed(), b) : ref::hmac(v.alg, b, a);
    bytes t;
    for (u8 k = 1; want.size() < len; k++)
    {
        if (part == 2)
        {
            // T || info || k, all through one HMAC
            if (k == 1) t = v.hm(prk, h, {k});
            else { len = std::min(len, ds); break; }
        }
        else
        {
            bytes m = cat(cat(t, part == 0 ? b : a), bytes{k});
            t = ref::hmac(v.alg, prk, m);
        }
        want = cat(want, t);
    }
#else
    got = part == 0 ? v.run(h, b, {}, len, form) : v.run(a, h, {}, len, form);
    bytes key = part == 0 ? hashed() : a;
    bytes u = part == 0 ? ref::hmac(v.alg, key, cat(b, bytes{0, 0, 0, 1})) : v.hm(a, h, {0, 0, 0, 1});
    bytes u2 = ref::hmac(v.alg, key, u);
    want = u;
    for (size_t i = 0; i < ds; i++) want[i] ^= u2[i];
#endif
    got.resize(len);
    want.resize(len);
    pbt::same("key-huge", got, want, fmt("%s with a huge part %d", v.name, int(part)));
}
PBT_TEST("huge", big, 0, 0, [](bool t) { return t ? nv * 9 : size_t(3 * 3); },
         [](size_t i, bool t) { static const size_t few[] = {find("sha_1_160"), find("sha_2_256"), find("sha_2_512")}; return std::vector<u64>{t ? i % nv : few[i % 3], t ? i / nv % 3 : i / 3, (t ? i / nv : i) % 3, t ? (i % 3) + 1 : 3}; }, 0, 0,
         "password, input key material, salt or info above 2^32 bytes (thorough: every backend, also 2^29 and 2^31); all non-trivial", 600);
