// C01, C04, C05, C06, C07 for other types than the named ones: digest size options, backends chosen by option, HMAC over
// shortened hashes and over a hash of the user's (sizes unlike any named one), and the derivations over those.
#include "../lib/drv.h"
#include <functional>
#include <milo/option.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/mac/poly.h>
using namespace drv;
namespace o = milo::option;

// a toy hash: its state absorbs bytes one by one; the digest is what comes of squeezing it
static u64 toy_step(u64 h, unsigned b) { h ^= b + 0x9e37; h *= 0x100000001b3ull; return h ^ h >> 29; }
static bytes toy(size_t n, const bytes& m)
{
    u64 h = 0xcbf29ce484222325ull;
    for (u8 b: m) h = toy_step(h, b);
    bytes r(n);
    for (u8& b: r) b = u8((h = toy_step(h, 300)) >> 32);
    return r;
}
template<size_t t_block, size_t t_digest> struct Toy
{
    struct properties { using hash = int; };
    static constexpr size_t block_size = t_block, digest_size = t_digest;
    u64 h = 1, end = 0;
    constexpr void initialize() noexcept { h = 0xcbf29ce484222325ull; }
    template<class B> constexpr void update(const B* p, size_t n) noexcept { while (n--) h = toy_step(h, u8(*p++)); }
    constexpr void finalize() noexcept { end = h; }
    template<class B> constexpr size_t digest(B* p, size_t n = t_digest) const noexcept
    {
        if (n > t_digest) n = t_digest;
        u64 e = end;
        for (size_t i = 0; i < n; i++) p[i] = B(u8((e = toy_step(e, 300)) >> 32));
        return n;
    }
};

// and a toy pseudo-random function: key, a mark, message
static bytes toyf(size_t n, const bytes& k, const bytes& m)
{
    u64 h = 0x243f6a8885a308d3ull;
    for (u8 b: k) h = toy_step(h, b);
    h = toy_step(h, 301);
    for (u8 b: m) h = toy_step(h, b);
    bytes r(n);
    for (u8& b: r) b = u8((h = toy_step(h, 302)) >> 32);
    return r;
}
template<size_t t_digest> struct Prf
{
    struct properties { using prf = int; };
    static constexpr size_t key_size = 0, digest_size = t_digest;
    u64 h = 1, end = 0;
    template<class B> constexpr void initialize(const B* p, size_t n) noexcept
    {
        h = 0x243f6a8885a308d3ull;
        update(p, n);
        h = toy_step(h, 301);
    }
    template<class B> constexpr void update(const B* p, size_t n) noexcept { while (n--) h = toy_step(h, u8(*p++)); }
    constexpr void finalize() noexcept { end = h; }
    template<class B> constexpr size_t digest(B* p, size_t n = t_digest) const noexcept
    {
        if (n > t_digest) n = t_digest;
        u64 e = end;
        for (size_t i = 0; i < n; i++) p[i] = B(u8((e = toy_step(e, 302)) >> 32));
        return n;
    }
};

struct H { std::string name; size_t block, size; std::function<bytes(const bytes&)> f; };
static H alg(ref::Alg a, size_t n) { return {std::string(ref::alg_name[a]) + "/" + std::to_string(n), ref::block_size(a), n, [=](const bytes& m) { return prefix(ref::hash(a, m), n); }}; }
static H toyh(size_t b, size_t n) { return {"toy-" + std::to_string(b) + "-" + std::to_string(n), b, n, [=](const bytes& m) { return toy(n, m); }}; }
static H cut(H h, size_t n) { h.name += " tag " + std::to_string(n); h.size = n; return h; }
[[maybe_unused]] static bytes hmac(const H& h, size_t tag, bytes k, const bytes& m)
{
    if (!h.f) return prefix(toyf(h.size, k, m), tag);
    if (k.size() > h.block) k = h.f(k);
    k.resize(h.block);
    bytes i = k, e = k;
    for (u8& b: i) b ^= 0x36;
    for (u8& b: e) b ^= 0x5c;
    return prefix(h.f(h::cat(e, h.f(h::cat(i, m)))), tag);
}
[[maybe_unused]] static bytes hkdf(const H& h, size_t tag, const bytes& ikm, const bytes& salt, const bytes& info, size_t n)
{
    bytes prk = hmac(h, tag, salt, ikm), t, r;
    for (unsigned i = 1; r.size() < n; i++)
    {
        t = hmac(h, tag, prk, h::cat(h::cat(t, info), bytes{u8(i)}));
        r.insert(r.end(), t.begin(), t.end());
    }
    r.resize(n);
    return r;
}
[[maybe_unused]] static bytes pbkdf2(const H& h, size_t tag, const bytes& p, const bytes& salt, size_t it, size_t n)
{
    bytes r;
    for (unsigned i = 1; r.size() < n; i++)
    {
        bytes u = hmac(h, tag, p, h::cat(salt, bytes{u8(i >> 24), u8(i >> 16), u8(i >> 8), u8(i)})), t = u;
        for (size_t k = 1; k < it; k++)
        {
            u = hmac(h, tag, p, u);
            for (size_t j = 0; j < t.size(); j++) t[j] ^= u[j];
        }
        r.insert(r.end(), t.begin(), t.end());
    }
    r.resize(n);
    return r;
}

namespace ph = mp::hash;
template<size_t n> using D = o::digest_size<n>;
using sw1 = o::impl_runtime<mp::detail::hash_sha_1_160_impl_sw>;
using sw2 = o::impl_runtime<mp::detail::hash_sha_2_256_impl_sw>;
using sw5 = o::impl_runtime<mp::detail::hash_sha_2_512_impl_sw>;
// X(type, reference)
#define OPT_HASHES(X) \
    X((ph::sha_1_160<D<1>>), alg(ref::sha1, 1)) X((ph::sha_1_160<D<12>>), alg(ref::sha1, 12)) X((ph::sha_1_160<sw1, D<19>>), alg(ref::sha1, 19)) \
    X((ph::sha_2_224<D<8>>), alg(ref::sha224, 8)) X((ph::sha_2_224<D<27>, sw2>), alg(ref::sha224, 27)) \
    X((ph::sha_2_256<D<16>>), alg(ref::sha256, 16)) X((ph::sha_2_256<D<31>>), alg(ref::sha256, 31)) X((ph::sha_2_256<D<32>, sw2>), alg(ref::sha256, 32)) X((ph::sha_2_256<sw2, D<3>>), alg(ref::sha256, 3)) \
    X((ph::sha_2_384<D<20>>), alg(ref::sha384, 20)) X((ph::sha_2_384<sw5, D<47>>), alg(ref::sha384, 47)) \
    X((ph::sha_2_512<D<32>>), alg(ref::sha512, 32)) X((ph::sha_2_512<D<63>>), alg(ref::sha512, 63)) X((ph::sha_2_512<D<1>, sw5>), alg(ref::sha512, 1)) \
    X((ph::sha_2_512_224<D<9>>), alg(ref::sha512_224, 9)) X((ph::sha_2_512_256<D<25>>), alg(ref::sha512_256, 25))
// X(type, hash reference, tag size)
#define OPT_MACS(X) \
    X((mp::mac::hmac<ph::sha_1_160<>, D<10>>), alg(ref::sha1, 20), 10) X((mp::mac::hmac<ph::sha_1_160<D<12>>>), alg(ref::sha1, 12), 12) X((mp::mac::hmac<ph::sha_1_160<D<17>>, D<1>>), alg(ref::sha1, 17), 1) \
    X((mp::mac::hmac<ph::sha_2_224<>, D<27>>), alg(ref::sha224, 28), 27) X((mp::mac::hmac<ph::sha_2_224<D<8>, sw2>>), alg(ref::sha224, 8), 8) \
    X((mp::mac::hmac<ph::sha_2_256<>, D<16>>), alg(ref::sha256, 32), 16) X((mp::mac::hmac<ph::sha_2_256<sw2, D<16>>>), alg(ref::sha256, 16), 16) X((mp::mac::hmac<ph::sha_2_256<D<31>>, D<30>>), alg(ref::sha256, 31), 30) \
    X((mp::mac::hmac<ph::sha_2_384<>, D<24>>), alg(ref::sha384, 48), 24) X((mp::mac::hmac<ph::sha_2_384<D<47>>>), alg(ref::sha384, 47), 47) \
    X((mp::mac::hmac<ph::sha_2_512<>, D<32>>), alg(ref::sha512, 64), 32) X((mp::mac::hmac<ph::sha_2_512<D<33>>, D<20>>), alg(ref::sha512, 33), 20) X((mp::mac::hmac<ph::sha_2_512<sw5, D<5>>>), alg(ref::sha512, 5), 5) \
    X((mp::mac::hmac<ph::sha_2_512_224<>, D<14>>), alg(ref::sha512_224, 28), 14) X((mp::mac::hmac<ph::sha_2_512_256<D<20>>>), alg(ref::sha512_256, 20), 20) \
    X((mp::mac::hmac<Toy<10, 3>>), toyh(10, 3), 3) X((mp::mac::hmac<Toy<40, 40>>), toyh(40, 40), 40) X((mp::mac::hmac<Toy<200, 77>, D<13>>), toyh(200, 77), 13) X((mp::mac::hmac<Toy<1, 1>>), toyh(1, 1), 1)

#define OPT_T(...) __VA_ARGS__
struct O { H h; size_t tag; bytes (*run)(Src&, Ctx&, const std::vector<bytes>&, size_t, size_t); };

#if OPT == 1
template<class T> bytes run(Src& s, Ctx& c, const std::vector<bytes>& x, size_t, size_t)
{
    return with_byte(s, [&](auto t) { return hash_once<T, typename decltype(t)::type>(s, c, x[0]); });
}
#define X(t, h) {h, 0, run<OPT_T t>},
static const O os[] = {OPT_HASHES(X)};
static bytes drawn(Src& s, const O& v, std::vector<bytes>& x, size_t&, size_t&)
{
    x = {s.content(length(s, 3000, v.h.block))};
    return v.h.f(x[0]);
}
#define COUNTS 100000, 2000000, 30000, 600000
#elif OPT == 4
template<class T> bytes run(Src& s, Ctx& c, const std::vector<bytes>& x, size_t block, size_t)
{
    return with_byte(s, [&](auto t) { return mac_once<T, typename decltype(t)::type>(s, c, x[0], x[1], block); });
}
#define X(t, h, n) {h, n, run<OPT_T t>},
static const O os[] = {OPT_MACS(X)};
static bytes drawn(Src& s, const O& v, std::vector<bytes>& x, size_t& a, size_t&)
{
    a = v.h.block;
    size_t k = length(s, 1000, v.h.block), m = length(s, 2000, v.h.block);
    x = {s.content(k), s.content(m)};
    return hmac(v.h, v.tag, x[0], x[1]);
}
#define COUNTS 80000, 2000000, 30000, 600000
#elif OPT == 5
template<class T> bytes run(Src& s, Ctx& c, const std::vector<bytes>& x, size_t, size_t)
{
    return with_byte(s, [&](auto t) { return mac_once<T, typename decltype(t)::type>(s, c, x[0], x[1], 16); });
}
using swp = o::impl_runtime<mp::detail::mac_poly_1305_impl_sw>;
#define X(t, n) {{"poly1305/" #n, 16, n, nullptr}, n, run<OPT_T t>},
static const O os[] = {X((mp::mac::poly_1305<D<1>>), 1) X((mp::mac::poly_1305<D<7>, swp>), 7) X((mp::mac::poly_1305<D<8>>), 8) X((mp::mac::poly_1305<D<12>>), 12) X((mp::mac::poly_1305<swp, D<15>>), 15) X((mp::mac::poly_1305<D<16>, swp>), 16)};
static bytes drawn(Src& s, const O& v, std::vector<bytes>& x, size_t&, size_t&)
{
    size_t m = length(s, 600, 16);
    x = {s.content(32), s.content(m)};
    return prefix(ref::poly1305(x[0].data(), x[1]), v.tag);
}
#define COUNTS 60000, 1000000, 20000, 400000
#elif OPT == 6
template<class T> bytes run(Src& s, Ctx& c, const std::vector<bytes>& x, size_t n, size_t)
{
    return with_byte(s, [&](auto t) { return hkdf_once<T, typename decltype(t)::type>(s, c, x[0], x[1], x[2], n); });
}
#define X(t, h, n) {h, n, run<mp::kdf::hkdf<OPT_T t>>},
static const O os[] = {OPT_MACS(X)};
static bytes drawn(Src& s, const O& v, std::vector<bytes>& x, size_t& n, size_t&)
{
    n = s.below(10) ? s.below(std::min<size_t>(255, 5) * v.tag + 1) : 255 * v.tag - s.below(v.tag + 1);
    size_t a = s.size(300, v.h.block), b = s.below(4) ? s.size(300, v.h.block) : 0, d = s.below(4) ? s.size(300, v.h.block) : 0;
    x = {s.content(a), s.content(b), s.content(d)};
    return hkdf(v.h, v.tag, x[0], x[1], x[2], n);
}
#define COUNTS 30000, 600000, 12000, 200000
#else
template<class T> bytes run(Src& s, Ctx& c, const std::vector<bytes>& x, size_t n, size_t it)
{
    return with_byte(s, [&](auto t) { return pbkdf_once<T, typename decltype(t)::type>(s, c, x[0], x[1], it, n); });
}
#define X(t, h, n) {h, n, run<mp::kdf::pbkdf_2<OPT_T t>>},
#define P(n) {{"toy-prf-" #n, 64, n, nullptr}, n, run<mp::kdf::pbkdf_2<Prf<n>>>},
static const O os[] = {OPT_MACS(X) P(1) P(5) P(32) P(300)};
static bytes drawn(Src& s, const O& v, std::vector<bytes>& x, size_t& n, size_t& it)
{
    n = s.below(5 * v.tag + 1);
    it = s.below(3) ? 1 + s.below(8) : 1;
    size_t a = s.size(300, v.h.block), b = s.below(4) ? s.size(300, v.h.block) : 0;
    x = {s.content(a), s.content(b)};
    return pbkdf2(v.h, v.tag, x[0], x[1], it, n);
}
#define COUNTS 30000, 600000, 12000, 200000
#endif
static const size_t no = sizeof os / sizeof *os;

static void options(Src& s, Ctx& c)
{
    const O& v = os[s.below(no)];
    H h = v.tag ? cut(v.h, v.tag) : v.h;
    std::vector<bytes> x;
    size_t n = 0, it = 0;
    bytes want = drawn(s, v, x, n, it);
    std::string d = h.name;
    for (auto& b: x) d += " len=" + std::to_string(b.size());
    c.note("%s n=%zu iterations=%zu", d.c_str(), n, it);
    c.nontrivial = false;
    for (auto& b: x) c.nontrivial |= b.size() > 0;
    for (auto& b: x) d += " " + pbt::hex(b);
    bytes got = v.run(s, c, x, n, it);
    if (OPT < 6) want_prefix("options", got, want, d);
    else pbt::same("options", got, want, d);
}
template<u64 q, u64 t, u64 cq, u64 ct> struct Counts { static constexpr u64 a = q, b = t, c = cq, d = ct; };
using K = Counts<COUNTS>;
PBT_TEST("options", options, K::a, K::b, nullptr, nullptr, K::c, K::d,
         "types other than the named ones (digest sizes and backends by option, shortened and user-defined hashes below the constructions), inputs, sizes and call forms as above; non-trivial: some input");
