// C35: the implementation in use is the one the options and the processor call for (see lib/cpusim.h).
// Which implementation runs is seen from the instructions that execute: each implementation has
// instructions of a feature that the others of its algorithm do not use.
#include "../lib/drv.h"
#include "../lib/cpusim.h"
#include <milo/option.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/mac/hmac.h>
namespace o = milo::option;
namespace d = mp::detail;

enum Impl { i_none, i_sw, i_ni, i_ssse3, i_avx2 };
enum Family { sha_1, sha_2, chacha };
static const char* const impl_name[] = {"default", "sw", "ni", "ssse3", "avx2"};
// does the processor have all that any such code uses, and might it be enough for some such code
static bool all(std::initializer_list<Feature> l) { for (auto f: l) if (!has(me, f)) return false; return true; }
static bool surely(Impl i, Family f)
{
    switch (i)
    {
    case i_ni: return all({f_sse3, f_ssse3, f_sse41, f_sse42, f_sha}) && (f == sha_1 || has(me, f_avx));
    case i_ssse3: return all({f_sse3, f_ssse3});
    case i_avx2: return all({f_sse3, f_ssse3, f_sse41, f_sse42, f_avx, f_avx2});
    default: return true;
    }
}
static bool maybe(Impl i)
{
    switch (i)
    {
    case i_ni: return has(me, f_sha);
    case i_ssse3: return has(me, f_ssse3);
    case i_avx2: return has(me, f_avx2);
    default: return true;
    }
}
// the choice for a family: the implementations that may be in use, as bits
static u32 choice(Family f, Impl enforced, Impl preferred)
{
#ifdef NOASM
    return 1u << i_sw;
#endif
    if (enforced) return 1u << enforced;
    u32 r = 0;
    std::vector<Impl> order;
    if (preferred) order.push_back(preferred);
    if (f == chacha) order.insert(order.end(), {i_avx2, i_ssse3, i_sw});
    else order.insert(order.end(), {i_ni, i_sw});
    for (Impl i: order)
    {
        if (maybe(i)) r |= 1u << i;
        if (surely(i, f)) break;
    }
    return r;
}

struct V
{
    const char* name;
    Family family;
    Impl enforced, preferred;
    void (*run)(Src&, Ctx&, size_t);
};
template<class T, ref::Alg A> static void w_hash(Src& s, Ctx& c, size_t n) { bytes m = s.content(n); want_prefix("result", hash_once<T, u8>(s, c, m), ref::hash(A, m), "hash"); }
template<class T, ref::Alg A> static void w_hmac(Src& s, Ctx& c, size_t n) { bytes k = s.content(s.size(200, 64)), m = s.content(n); want_prefix("result", mac_once<mp::mac::hmac<T>, u8>(s, c, k, m, 64), ref::hmac(A, k, m), "hmac"); }
template<class T, ref::Alg A> static void w_hkdf(Src& s, Ctx& c, size_t n) { bytes i = s.content(s.below(100)), t = s.content(s.below(100)), f = s.content(s.below(100)); n = 1 + n % 150; pbt::same("result", hkdf_once<mp::kdf::hkdf<mp::mac::hmac<T>>, u8>(s, c, i, t, f, n), ref::hkdf(A, i, t, f, n), "hkdf"); }
template<class T, ref::Alg A> static void w_pbkdf(Src& s, Ctx& c, size_t n) { bytes i = s.content(s.below(100)), t = s.content(s.below(100)); n = 1 + n % 100; size_t it = 1 + s.below(3); pbt::same("result", pbkdf_once<mp::kdf::pbkdf_2<mp::mac::hmac<T>>, u8>(s, c, i, t, it, n), ref::pbkdf2(A, i, t, it, n), "pbkdf2"); }
template<class T> static void w_chacha(Src& s, Ctx& c, size_t n)
{
    bytes k = s.content(32), v = s.content(16), m = s.content(n), out(n);
    u32 ctr;
    memcpy(&ctr, v.data(), 4);
    bool dec = s.below(2);
    if (n >= 2048)          // in one run, so that the widest code has something to do
    {
        mp::cipher::apie<T> a(k.data(), k.size(), v.data(), v.size());
        if (dec) a.decrypt(m.data(), n, out.data());
        else a.encrypt(m.data(), n, out.data());
    }
    else out = cipher_once<T, u8>(s, c, k, v, m, dec);
    pbt::same("result", out, ref::chacha20(k.data(), v.data() + 4, ctr, m), "chacha20");
}
template<class T> static void w_aead(Src& s, Ctx& c, size_t n)
{
    bytes k = s.content(32), v = s.content(12), a = s.content(s.below(100)), m = s.content(n), ct = ref::chacha20(k.data(), v.data(), 1, m), out(n), tag(16);
    if (n >= 2048)
    {
        mp::aead::apie<T> x(k.data(), k.size(), v.data(), v.size());
        x.aad(a.data(), a.size());
        x.encrypt(m.data(), n, out.data());
        x.digest(tag.data(), tag.size());
    }
    else
    {
        auto r = aead_once<T, u8>(s, c, k, v, a, m, false);
        out = r.text, tag = r.tag;
    }
    pbt::same("result", out, ct, "aead ciphertext");
    want_prefix("result", tag, ref::aead_tag(k.data(), v.data(), a, ct), "aead tag");
}
template<class... O> using ch = mp::cipher::chacha_20<O...>;
template<class... O> using ae = d::aead_chacha_20_poly_1305<ch<O...>, mp::mac::poly_1305<>>;
template<class I> using P = o::impl_runtime<I>;
template<class I> using E = o::impl_enforce<I>;
using csw = d::cipher_chacha_impl_sw_ietf;
using cs3 = d::cipher_chacha_impl_hw_x86_64_ssse_3_ietf;
using ca2 = d::cipher_chacha_impl_hw_x86_64_avx_2_ietf;
#define HASH(w, A, fam, alg, sw, ni) \
    {#w " " #alg, fam, i_none, i_none, w<mp::hash::alg<>, A>}, {#w " " #alg, fam, i_none, i_sw, w<mp::hash::alg<P<d::sw>>, A>}, {#w " " #alg, fam, i_sw, i_none, w<mp::hash::alg<E<d::sw>>, A>}, \
    {#w " " #alg, fam, i_none, i_ni, w<mp::hash::alg<P<d::ni>>, A>}, {#w " " #alg, fam, i_ni, i_none, w<mp::hash::alg<E<d::ni>>, A>}, \
    {#w " " #alg, fam, i_sw, i_ni, w<mp::hash::alg<P<d::ni>, E<d::sw>>, A>}, {#w " " #alg, fam, i_ni, i_sw, w<mp::hash::alg<E<d::ni>, P<d::sw>>, A>}, \
    {#w " " #alg, fam, i_none, i_sw, w<mp::hash::alg<o::digest_size<16>, P<d::sw>>, A>},
#define HASHES(w) HASH(w, ref::sha1, sha_1, sha_1_160, hash_sha_1_160_impl_sw, hash_sha_1_160_impl_hw_x86_64_ni) HASH(w, ref::sha224, sha_2, sha_2_224, hash_sha_2_256_impl_sw, hash_sha_2_256_impl_hw_x86_64_ni) HASH(w, ref::sha256, sha_2, sha_2_256, hash_sha_2_256_impl_sw, hash_sha_2_256_impl_hw_x86_64_ni)
#define OVER(w, A, fam, alg, sw, ni) \
    {#w " " #alg, fam, i_none, i_none, w<mp::hash::alg<>, A>}, {#w " " #alg, fam, i_none, i_sw, w<mp::hash::alg<P<d::sw>>, A>}, {#w " " #alg, fam, i_sw, i_none, w<mp::hash::alg<E<d::sw>>, A>}, {#w " " #alg, fam, i_ni, i_none, w<mp::hash::alg<E<d::ni>>, A>},
#define OVERS(w) OVER(w, ref::sha1, sha_1, sha_1_160, hash_sha_1_160_impl_sw, hash_sha_1_160_impl_hw_x86_64_ni) OVER(w, ref::sha224, sha_2, sha_2_224, hash_sha_2_256_impl_sw, hash_sha_2_256_impl_hw_x86_64_ni) OVER(w, ref::sha256, sha_2, sha_2_256, hash_sha_2_256_impl_sw, hash_sha_2_256_impl_hw_x86_64_ni)
#define CHACHA(w, t) \
    {#t, chacha, i_none, i_none, w<t<>>}, {#t, chacha, i_none, i_sw, w<t<P<csw>>>}, {#t, chacha, i_sw, i_none, w<t<E<csw>>>}, {#t, chacha, i_none, i_ssse3, w<t<P<cs3>>>}, {#t, chacha, i_ssse3, i_none, w<t<E<cs3>>>}, \
    {#t, chacha, i_none, i_avx2, w<t<P<ca2>>>}, {#t, chacha, i_avx2, i_none, w<t<E<ca2>>>}, {#t, chacha, i_ssse3, i_avx2, w<t<P<ca2>, E<cs3>>>}, {#t, chacha, i_sw, i_avx2, w<t<E<csw>, P<ca2>>>}, {#t, chacha, i_avx2, i_sw, w<t<P<csw>, E<ca2>>>},
static const V vs[] = {CHACHA(w_chacha, ch) CHACHA(w_aead, ae) HASHES(w_hash) OVERS(w_hmac) OVERS(w_hkdf) OVERS(w_pbkdf) {"aead, named", chacha, i_none, i_none, w_aead<mp::aead::chacha_20_poly_1305<>>}, {"chacha20, named", chacha, i_none, i_none, w_chacha<mp::cipher_chacha_20>}};
static const size_t nv = sizeof vs / sizeof *vs;

static int child()
{
    Src s;
    s.rng = pbt::Rng(me.seed);
    Ctx c;
    unsigned long judged = 0;
    for (u64 k = 0; k < me.ops; k++)
    {
        const V& v = vs[(me.ops == 1 ? me.seed : k == 0 ? me.seed : s.below(nv)) % nv];
        size_t n = s.below(3) ? 2048 + s.below(3000) : s.below(600);
        if (v.enforced && !surely(v.enforced, v.family)) continue;        // asks for what the processor lacks
#ifndef NOASM
        u32 may = choice(v.family, v.enforced, v.preferred);
#else
        u32 may = 1u << i_sw;
#endif
        arm();
        std::string what = fmt("%s, enforced %s, preferred %s, %zu bytes", v.name, v.enforced ? impl_name[v.enforced] : "nothing", v.preferred ? impl_name[v.preferred] : "nothing", n);
        try { v.run(s, c, n); }
        catch (const pbt::Fail& f) { printf("\n!%s: %s\n", what.c_str(), f.msg.c_str()); fflush(stdout); _exit(3); }
        judged++;
        bool sha = executed >> f_sha & 1, s3 = executed >> f_ssse3 & 1, a2 = executed >> f_avx2 & 1;
        std::string bad;
        auto only = [&](u32 x) { return !(may & ~x); };
        const u32 sw = 1u << i_sw, ni = 1u << i_ni, b3 = 1u << i_ssse3, b2 = 1u << i_avx2;
        if (only(sw) && (sha || s3 || a2)) bad = "software is to be used, and hardware code ran";
        else if (v.family != chacha && only(ni) && !sha) bad = "the code with SHA instructions is to be used and did not run";
        else if (v.family == chacha && only(b3) && n >= 2048 && !s3) bad = "the SSSE3 code is to be used and did not run";
        else if (v.family == chacha && only(b2) && n >= 2048 && !a2) bad = "the AVX2 code is to be used and did not run";
        else if (v.family == chacha && only(b2 | b3) && n >= 2048 && !a2 && !s3) bad = "hardware code is to be used and none ran";
        else if (v.family == chacha && !(may & b2) && a2) bad = "AVX2 code ran";
        else if (v.family != chacha && !(may & ni) && sha) bad = "SHA instructions ran";
        if (!bad.empty()) { printf("\n!%s: %s\n", what.c_str(), bad.c_str()); fflush(stdout); _exit(3); }
    }
    printf("judged %lu\n", judged);
    fflush(stdout);
    return 0;
}

static void one(Src& s, Ctx& c)
{
    u64 bits = s.below(1 << 9);
    Cpu k = draw_cpu(s, bits);
    k.watch = 1u << f_sha | 1u << f_ssse3 | 1u << f_avx2;
    k.seed = s.below(100000);
    k.ops = s.below(3) ? 1 + s.below(60) : 1;
    c.nontrivial = true;
    describe(c, k);
    c.note(" first %s, %llu operations", vs[k.seed % nv].name, (unsigned long long)k.ops);
    std::string out;
    if (run_child(k, out))
    {
        if (out.find("judged 0\n") != std::string::npos) c.nontrivial = false;
        if (has(k, f_sha)) c.label("sha");
        if (has(k, f_avx2)) c.label("avx2");
        else if (has(k, f_ssse3)) c.label("ssse3");
        return;
    }
    size_t at = out.find('!');
    std::string m = at == std::string::npos ? out : out.substr(at + 1);
    while (!m.empty() && m.back() == '\n') m.pop_back();
    pbt::fail(m.compare(0, 11, "unsupported") ? "choice" : "unsupported", "on the drawn CPU: " + m);
}
PBT_TEST("choices", one, 12000, 200000, [](bool t) { return size_t(512 * (t ? 80 : 8)); }, [](size_t i, bool) { return std::vector<u64>{i % 512}; }, 0, 0,
         "a CPU and operating system as in C15 and operations of types with options (nothing, a preferred, an enforced implementation or both, in either order), directly and below HMAC, HKDF, PBKDF2 and the AEAD; results must equal the reference and the instructions that execute must be of the implementation called for; non-trivial: some operation judged");
