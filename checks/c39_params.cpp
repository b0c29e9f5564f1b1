// C39: keys and initialization vectors of sizes other than the documented ones, and the documented sizes themselves.
#include "../lib/drv.h"
#include <milo/option.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/mac/poly.h>
using namespace drv;

template<class T> static bytes mac(Src& s, Ctx& c, const bytes& k, const bytes&, const bytes&, const bytes& m, bool) { return with_byte(s, [&](auto t) { return mac_once<T, typename decltype(t)::type>(s, c, k, m, 16); }); }
template<class T> static bytes cipher(Src& s, Ctx& c, const bytes& k, const bytes& v, const bytes&, const bytes& m, bool dec) { return with_byte(s, [&](auto t) { return cipher_once<T, typename decltype(t)::type>(s, c, k, v, m, dec); }); }
template<class T> static bytes aead(Src& s, Ctx& c, const bytes& k, const bytes& v, const bytes& ad, const bytes& m, bool dec)
{
    auto r = with_byte(s, [&](auto t) { return aead_once<T, typename decltype(t)::type>(s, c, k, v, ad, m, dec); });
    return h::cat(r.text, r.tag);
}
struct V { const char* name; int kind; Need need; bytes (*run)(Src&, Ctx&, const bytes&, const bytes&, const bytes&, const bytes&, bool); };
static const V vs[] = {
    {"poly1305", 0, {}, mac<mp::mac_poly_1305>}, {"poly1305 sw", 0, {}, mac<mp::mac_poly_1305_sw>},
    {"chacha20", 1, {}, cipher<mp::cipher_chacha_20>}, {"chacha20 sw", 1, {}, cipher<mp::cipher_chacha_20_sw>},
    {"aead", 2, {}, aead<mp::aead_chacha_20_poly_1305>}, {"aead sw", 2, {}, aead<mp::aead_chacha_20_sw_poly_1305_sw>}};

static bytes fit(bytes b, size_t n) { b.resize(n); return b; }
static void sizes(Src& s, Ctx& c)
{
    const V& v = vs[s.below(6)];
    auto draw = [&](size_t right) { switch (s.below(4)) { case 0: return right; case 1: return s.below(right + 1); case 2: return right + s.below(right); default: return s.below(120); } };
    size_t iw = v.kind == 1 ? 16 : 12, kn = draw(32), in = v.kind ? draw(iw) : 0;
    bytes k = s.content(kn), iv = s.content(in), ad = v.kind == 2 ? s.content(s.size(100, 16)) : bytes(), m = s.content(s.size(400, 64));
    bool dec = v.kind && s.below(2);
    c.note("%s key=%zu iv=%zu aad=%zu len=%zu%s", v.name, kn, in, ad.size(), m.size(), dec ? " decrypt" : "");
    c.nontrivial = kn != 32 || (v.kind && in != iw);
    if (kn < 32) c.label("short-key");
    if (kn > 32) c.label("long-key");
    if (v.kind && in < iw) c.label("short-iv");
    if (v.kind && in > iw) c.label("long-iv");
    bytes got = v.run(s, c, k, iv, ad, m, dec), want, fk = fit(k, 32), fi = fit(iv, iw);
    std::string what = fmt("%s key %s iv %s aad %s text %s", v.name, pbt::hex(k).c_str(), pbt::hex(iv).c_str(), pbt::hex(ad).c_str(), pbt::hex(m).c_str());
    if (v.kind == 0) { want_prefix("tag", got, ref::poly1305(fk.data(), m), what); return; }
    if (v.kind == 1)
    {
        u32 ctr;
        memcpy(&ctr, fi.data(), 4);
        pbt::same("text", got, ref::chacha20(fk.data(), fi.data() + 4, ctr, m), what);
        return;
    }
    want = ref::chacha20(fk.data(), fi.data(), 1, m);
    bytes tag = ref::aead_tag(fk.data(), fi.data(), ad, dec ? m : want);
    pbt::same("text", bytes(got.begin(), got.begin() + m.size()), want, what);
    want_prefix("tag", bytes(got.begin() + m.size(), got.end()), tag, what);
}
PBT_TEST("sizes", sizes, 1000000, 12000000, [](bool t) { return size_t(t ? 6 * 100 * 40 : 6 * 70 * 30); },
         [](size_t i, bool t) { size_t a = t ? 100 : 70, b = t ? 40 : 30; return std::vector<u64>{i % 6, 3, i / 6 % a, 3, i / 6 / a % b}; }, 100000, 2000000,
         "algorithm, key size and iv size (grid: all pairs of small ones), contents, call form, byte type, splitting, direction; non-trivial: some size is not the documented one");

struct K { std::string name; size_t got, want; };
static std::vector<K> ks;
template<class T, class A> static void hash_k(const char* n, ref::Alg a, size_t d)
{
    std::string s = n;
    ks.push_back({s + " digest_size", T::digest_size, d}), ks.push_back({s + " block_size", T::block_size, ref::block_size(a)});
    ks.push_back({s + " apie digest_size", A::digest_size, d}), ks.push_back({s + " apie block_size", A::block_size, ref::block_size(a)});
}
template<class T, class A> static void mac_k(const char* n, size_t d, size_t k)
{
    std::string s = n;
    ks.push_back({s + " digest_size", T::digest_size, d}), ks.push_back({s + " key_size", T::key_size, k});
    ks.push_back({s + " apie digest_size", A::digest_size, d}), ks.push_back({s + " apie key_size", A::key_size, k});
}
template<template<class...> class H> static void hashes(const char* n, ref::Alg a)
{
    auto opt = [&]<size_t... I>(std::index_sequence<I...>)
    {
        (hash_k<H<milo::option::digest_size<I + 1>>, mp::hash::apie<H<milo::option::digest_size<I + 1>>>>(n, a, I + 1), ...);
        (mac_k<mp::mac::hmac<H<>, milo::option::digest_size<I + 1>>, mp::mac::apie<mp::mac::hmac<H<>, milo::option::digest_size<I + 1>>>>("hmac", I + 1, 0), ...);
        (mac_k<mp::mac::hmac<H<milo::option::digest_size<I + 1>>>, mp::mac::apie<mp::mac::hmac<H<milo::option::digest_size<I + 1>>>>>("hmac of a shortened hash", I + 1, 0), ...);
    };
    hash_k<H<>, mp::hash::apie<H<>>>(n, a, ref::digest_size(a));
    mac_k<mp::mac::hmac<H<>>, mp::mac::apie<mp::mac::hmac<H<>>>>((std::string("hmac ") + n).c_str(), ref::digest_size(a), 0);
    opt(std::make_index_sequence<20>());
}
static void fill()
{
    hashes<mp::hash::sha_1_160>("sha1", ref::sha1), hashes<mp::hash::sha_2_224>("sha224", ref::sha224), hashes<mp::hash::sha_2_256>("sha256", ref::sha256), hashes<mp::hash::sha_2_384>("sha384", ref::sha384);
    hashes<mp::hash::sha_2_512>("sha512", ref::sha512), hashes<mp::hash::sha_2_512_224>("sha512/224", ref::sha512_224), hashes<mp::hash::sha_2_512_256>("sha512/256", ref::sha512_256);
    mac_k<mp::mac::poly_1305<>, mp::mac::apie<mp::mac::poly_1305<>>>("poly1305", 16, 32);
    [&]<size_t... I>(std::index_sequence<I...>)
    {
        (mac_k<mp::mac::poly_1305<milo::option::digest_size<I + 1>>, mp::mac::apie<mp::mac::poly_1305<milo::option::digest_size<I + 1>>>>("poly1305 shortened", I + 1, 32), ...);
    }(std::make_index_sequence<16>());
    using C = mp::cipher::chacha_20<>;
    using A = mp::aead::chacha_20_poly_1305<>;
    using B16 = mp::codec::base_16<>;
    using B64 = mp::codec::base_64<>;
    for (auto& x: std::vector<K>{{"chacha20 key_size", C::key_size, 32}, {"chacha20 iv_size", C::iv_size, 16}, {"chacha20 apie key_size", mp::cipher::apie<C>::key_size, 32}, {"chacha20 apie iv_size", mp::cipher::apie<C>::iv_size, 16},
             {"aead key_size", A::key_size, 32}, {"aead iv_size", A::iv_size, 12}, {"aead digest_size", A::digest_size, 16},
             {"aead apie key_size", mp::aead::apie<A>::key_size, 32}, {"aead apie iv_size", mp::aead::apie<A>::iv_size, 12}, {"aead apie digest_size", mp::aead::apie<A>::digest_size, 16},
             {"base-16 ratio_bytes_size", B16::ratio_bytes_size, 1}, {"base-16 ratio_chars_size", B16::ratio_chars_size, 2}, {"base-64 ratio_bytes_size", B64::ratio_bytes_size, 3}, {"base-64 ratio_chars_size", B64::ratio_chars_size, 4},
             {"base-16 apie ratio_bytes_size", mp::codec::apie<B16>::ratio_bytes_size, 1}, {"base-16 apie ratio_chars_size", mp::codec::apie<B16>::ratio_chars_size, 2},
             {"base-64 apie ratio_bytes_size", mp::codec::apie<B64>::ratio_bytes_size, 3}, {"base-64 apie ratio_chars_size", mp::codec::apie<B64>::ratio_chars_size, 4}}) ks.push_back(x);
}
static size_t count() { if (ks.empty()) fill(); return ks.size(); }
static void constants(Src& s, Ctx& c)
{
    const K& k = ks[s.below(count())];
    c.note("%s", k.name.c_str());
    c.nontrivial = true;
    if (k.got != k.want) pbt::fail("constant", fmt("%s is %zu, documented as %zu", k.name.c_str(), k.got, k.want));
}
PBT_TEST("constants", constants, 0, 0, [](bool) { return count(); }, [](size_t i, bool) { return std::vector<u64>{i}; }, 0, 0,
         "the documented sizes of every algorithm, with and without digest size options, in the class and in its wrapper; all non-trivial");
