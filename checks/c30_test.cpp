// C30: the testing interface tells agreement from disagreement.
//
// `differential` is given implementations of our own, which report what they are asked (piece sizes, input bytes,
// key sizes, output lengths) and can be told to return something wrong when a given one of these occurs.  What the
// clean run explored must be found when it goes wrong; how much it explores at least is checked separately.
#include "../lib/drv.h"
#include <milo/primitive/aead/test.h>
#include <milo/primitive/cipher/test.h>
#include <milo/primitive/codec/test.h>
#include <milo/primitive/hash/test.h>
#include <milo/primitive/kdf/test.h>
#include <milo/primitive/mac/test.h>
#include <bitset>
#include <map>
#include <memory>
using namespace drv;

// ---- what implementations are asked ---------------------------------------------------------
enum Kind { always, piece, byte_at, calls, key_size, key_byte, iv_byte, ikm_byte, salt_byte, info_byte, out_size, rounds, e_piece, d_piece, e_byte, d_byte, e_always, d_always, kinds };
static const char* kind_name[] = {"always", "piece", "byte", "calls", "key-size", "key-byte", "iv-byte", "ikm-byte", "salt-byte", "info-byte", "output-size", "iterations",
                                  "encrypt-piece", "decrypt-piece", "encrypt-byte", "decrypt-byte", "encrypt", "decrypt"};
constexpr size_t values = 8192;
struct Record { std::bitset<values> seen[2][kinds], differ; };      // differ: a piece size one side had and the other had not when they were compared
static Record* rec;
struct Fault { int side = -1; Kind kind = always; size_t value = 0, where = 0; u8 flip = 0; };
static Fault fault;

struct Probe
{
    bool bad = false;
    void event(int side, Kind k, size_t v)
    {
        if (v >= values) v = values - 1;
        if (rec) rec->seen[side][k][v] = true;
        if ((fault.side == side || fault.side == 2) && fault.kind == k && fault.value == v) bad = true;
    }
    template<class B> void bytes_seen(int side, Kind k, size_t pos, const B* p, size_t n)
    {
        if (rec) for (size_t i = 0; i < n; i++) if (u8(p[i]) && pos + i < values) rec->seen[side][k][pos + i] = true;
        if ((fault.side == side || fault.side == 2) && fault.kind == k && fault.value >= pos && fault.value - pos < n && u8(p[fault.value - pos])) bad = true;
    }
};
struct Weights { u64 w[values]; Weights() { u64 x = 88172645463325252u; for (auto& v: w) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; v = x; } } };
static const Weights W;
template<class B> static u64 weigh(size_t pos, const B* p, size_t n)
{
    u64 r = 0;
    for (size_t i = 0; i < n; i++) r += (u64(u8(p[i])) + 1) * W.w[(pos + i) % values];
    return r;
}
static u64 fin(u64 x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15u; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9u; return x ^ x >> 32; }
static u8 stream(u64 seed, size_t i) { return u8(fin(seed + i * 0x9E3779B97F4A7C15u) >> 24); }

// ---- hashes and MACs ------------------------------------------------------------------------
struct Pieces { std::vector<size_t> sizes; bool fresh = false; };
static Pieces side_pieces[2];
static void compared(int side)
{
    side_pieces[side].fresh = true;
    if (!rec || !side_pieces[!side].fresh) return;
    for (int k: {0, 1})
        for (size_t a: side_pieces[k].sizes)
        {
            auto& o = side_pieces[!k].sizes;
            if (std::find(o.begin(), o.end(), a) == o.end()) rec->differ[std::min(a, values - 1)] = true;
        }
    side_pieces[0].fresh = side_pieces[1].fresh = false;
}
template<int SIDE, size_t DIGEST, size_t KEY = 0> struct Digester
{
    Probe probe;
    u64 h = 0;
    size_t pos = 0, n_calls = 0;
    void start()
    {
        probe.bad = false;
        pos = n_calls = 0;
        h = 1;
        if (rec) side_pieces[SIDE] = {};
        probe.event(SIDE, always, 0);
    }
    template<milo::meta::byte B> void update(const B* p, size_t n) noexcept
    {
        probe.event(SIDE, piece, n);
        if (rec && (side_pieces[SIDE].sizes.empty() || side_pieces[SIDE].sizes.back() != n)) side_pieces[SIDE].sizes.push_back(n);
        probe.bytes_seen(SIDE, byte_at, pos, p, n);
        h += weigh(pos, p, n);
        pos += n, n_calls++;
    }
    void finalize() noexcept { probe.event(SIDE, calls, n_calls); }
    template<milo::meta::byte B> size_t digest(B* p, size_t n = DIGEST) noexcept
    {
        compared(SIDE);
        n = std::min(n, DIGEST);
        for (size_t i = 0; i < n; i++) p[i] = B(stream(h, i) ^ (probe.bad && i == fault.where % DIGEST ? fault.flip : 0));
        return n;
    }
};
template<int SIDE, size_t DIGEST> struct FakeHash : Digester<SIDE, DIGEST>
{
    struct properties { struct hash; };
    static constexpr size_t block_size = 16, digest_size = DIGEST;
    void initialize() noexcept { this->start(); }
};
template<int SIDE, size_t DIGEST, size_t KEY> struct FakeMac : Digester<SIDE, DIGEST>
{
    struct properties { struct mac; };
    static constexpr size_t key_size = KEY, digest_size = DIGEST;
    template<milo::meta::byte B> void initialize(const B* k, size_t n) noexcept
    {
        this->start();
        this->probe.event(SIDE, drv_key_size, n);
        this->probe.bytes_seen(SIDE, key_byte, 0, k, n);
        this->h += weigh(77, k, n) * 3 + n;
    }
    static constexpr Kind drv_key_size = ::key_size;
};
// ---- key derivation -------------------------------------------------------------------------
template<int SIDE> struct Deriver
{
    Probe probe;
    u64 h = 0;
    size_t pos = 0;
    template<milo::meta::byte B> size_t derive(B* p, size_t n) noexcept
    {
        Probe q = probe;
        if (n) q.event(SIDE, out_size, n), q.event(SIDE, always, 0);
        for (size_t i = 0; i < n; i++) p[i] = B(stream(h, pos + i) ^ (q.bad && i == fault.where % n ? fault.flip : 0));
        pos += n;
        // input bytes only count once something is asked for
        if (rec && n) for (int k = 0; k < kinds; k++) rec->seen[SIDE][k] |= pending.seen[SIDE][k];
        return n;
    }
    Record pending;
    template<milo::meta::byte B> void input(Kind k, const B* p, size_t n)
    {
        if (rec)
        {
            for (size_t i = 0; i < n; i++) if (u8(p[i])) pending.seen[SIDE][k][i] = true;
        }
        Record* r = rec;
        rec = nullptr;
        probe.bytes_seen(SIDE, k, 0, p, n);
        rec = r;
        h = h * 31 + weigh(k * 500, p, n);
    }
    void start()
    {
        probe.bad = false;
        pos = 0;
        h = 7;
        if (rec) pending = Record();
    }
};
template<int SIDE> struct FakeHkdf : Deriver<SIDE>
{
    struct properties { struct kdf; struct kdf_hkdf; };
    template<milo::meta::byte A, milo::meta::byte B, milo::meta::byte C> void initialize(const A* a, size_t an, const B* b, size_t bn, const C* c, size_t cn) noexcept
    {
        this->start();
        this->input(ikm_byte, a, an);
        this->input(salt_byte, b, bn);
        this->input(info_byte, c, cn);
    }
};
template<int SIDE> struct FakePbkdf : Deriver<SIDE>
{
    struct properties { struct kdf; struct kdf_pbkdf_2; };
    template<milo::meta::byte A, milo::meta::byte B> void initialize(const A* a, size_t an, const B* b, size_t bn, std::uint32_t n) noexcept
    {
        this->start();
        this->input(ikm_byte, a, an);
        this->input(salt_byte, b, bn);
        if (rec) this->pending.seen[SIDE][rounds][std::min<size_t>(n, values - 1)] = true;
        if ((fault.side == SIDE || fault.side == 2) && fault.kind == rounds && fault.value == n) this->probe.bad = true;
        this->h += n * 977;
    }
};
// ---- ciphers --------------------------------------------------------------------------------
template<int SIDE, size_t KEY, size_t IV, size_t BLOCK> struct FakeCipher
{
    struct properties { struct cipher; struct cipher_stream; };
    static constexpr size_t key_size = KEY, iv_size = IV, block_size = BLOCK;
    Probe probe;
    u64 h = 0;
    size_t pos = 0;
    template<milo::meta::byte A, milo::meta::byte B> void initialize(const A* k, size_t kn, const B* v, size_t vn) noexcept
    {
        probe.bad = false;
        pos = 0;
        probe.event(SIDE, always, 0);
        probe.bytes_seen(SIDE, key_byte, 0, k, kn);
        probe.bytes_seen(SIDE, iv_byte, 0, v, vn);
        h = weigh(0, k, kn) + 3 * weigh(1000, v, vn);
    }
    template<milo::meta::byte A, milo::meta::byte B> size_t run(bool enc, const A* p, size_t n, B* o) noexcept
    {
        Probe q = probe;
        if (n) q.event(SIDE, enc ? e_piece : d_piece, n), q.event(SIDE, enc ? e_always : d_always, 0);
        q.bytes_seen(SIDE, enc ? e_byte : d_byte, pos, p, n);
        for (size_t i = 0; i < n; i++) o[i] = B(u8(p[i]) ^ u8(W.w[(pos + i) % values] * (h | 1) >> 56) ^ (q.bad && (fault.kind == always ? pos + i == fault.where % 40 : i == fault.where % n) ? fault.flip : 0));
        pos += n;
        return n;
    }
    template<milo::meta::byte A, milo::meta::byte B> size_t encrypt(const A* p, size_t n, B* o) noexcept { return run(true, p, n, o); }
    template<milo::meta::byte A, milo::meta::byte B> size_t decrypt(const A* p, size_t n, B* o) noexcept { return run(false, p, n, o); }
    template<milo::meta::byte A> size_t encrypt_size(const A*, size_t n) noexcept { return n; }
    template<milo::meta::byte A> size_t decrypt_size(const A*, size_t n) noexcept { return n; }
};
static_assert(milo::meta::primitive::hash<FakeHash<0, 4>> && milo::meta::primitive::mac<FakeMac<0, 4, 0>> && milo::meta::primitive::kdf_hkdf<FakeHkdf<0>> &&
              milo::meta::primitive::kdf_pbkdf_2<FakePbkdf<0>> && milo::meta::primitive::cipher<FakeCipher<0, 4, 4, 1>>);

struct Subject
{
    const char* name;
    bool (*run)();
    std::vector<Kind> faults;
    std::vector<std::pair<Kind, size_t>> floor;     // at least so many different ones on each side
    bool pieces;
};
static const std::vector<Subject>& subjects()
{
    using namespace milo::primitive;
    static const std::vector<Kind> hk{piece, byte_at, calls, always}, mk{piece, byte_at, calls, always, ::key_size, key_byte}, kk{ikm_byte, salt_byte, info_byte, out_size, always},
        pk{ikm_byte, salt_byte, out_size, rounds, always}, ck{e_piece, d_piece, e_byte, d_byte, e_always, d_always, key_byte, iv_byte, always};
    static const std::vector<std::pair<Kind, size_t>> hf{{piece, 80}, {byte_at, 250}}, mf{{piece, 80}, {byte_at, 250}, {::key_size, 80}, {key_byte, 250}},
        kf{{ikm_byte, 120}, {salt_byte, 120}, {info_byte, 120}, {out_size, 120}}, pf{{ikm_byte, 60}, {salt_byte, 60}, {out_size, 60}, {rounds, 60}};
    static const std::vector<Subject> v{
        {"hash/4", [] { return mp::hash::test::differential<FakeHash<0, 4>, FakeHash<1, 4>>(); }, hk, hf, true},
        {"hash/33", [] { return mp::hash::test::differential<FakeHash<0, 33>, FakeHash<1, 33>>(); }, hk, hf, true},
        {"mac/16", [] { return mp::mac::test::differential<FakeMac<0, 16, 0>, FakeMac<1, 16, 0>>(); }, mk, mf, true},
        {"mac/64", [] { return mp::mac::test::differential<FakeMac<0, 64, 0>, FakeMac<1, 64, 0>>(); }, mk, mf, true},
        {"mac/key-32", [] { return mp::mac::test::differential<FakeMac<0, 16, 32>, FakeMac<1, 16, 32>>(); }, {piece, byte_at, always}, hf, true},
        {"hkdf", [] { return mp::kdf::test::differential<FakeHkdf<0>, FakeHkdf<1>>(); }, kk, kf, false},
        {"pbkdf2", [] { return mp::kdf::test::differential<FakePbkdf<0>, FakePbkdf<1>>(); }, pk, pf, false},
        {"cipher/1", [] { return mp::cipher::test::differential<FakeCipher<0, 8, 4, 1>, FakeCipher<1, 8, 4, 1>>(); }, ck, {{e_piece, 20}, {d_piece, 20}, {e_byte, 30}, {key_byte, 8}, {iv_byte, 4}}, false},
        {"cipher/8", [] { return mp::cipher::test::differential<FakeCipher<0, 32, 16, 8>, FakeCipher<1, 32, 16, 8>>(); }, ck, {{e_piece, 100}, {d_piece, 100}, {e_byte, 250}, {key_byte, 32}, {iv_byte, 16}}, false},
        {"cipher/5", [] { return mp::cipher::test::differential<FakeCipher<0, 1, 24, 5>, FakeCipher<1, 1, 24, 5>>(); }, ck, {{e_piece, 60}, {d_piece, 60}, {e_byte, 150}, {key_byte, 1}, {iv_byte, 24}}, false},
    };
    return v;
}
static Record* explored(size_t i)
{
    static std::map<size_t, std::unique_ptr<Record>> m;
    auto& r = m[i];
    if (r) return r.get();
    r.reset(new Record());
    rec = r.get();
    fault = Fault();
    bool ok = subjects()[i].run();
    rec = nullptr;
    if (!ok) pbt::fail("false-alarm", std::string("differential of equal implementations is false: ") + subjects()[i].name);
    return r.get();
}
static void differential(Src& s, Ctx& c)
{
    size_t i = s.below(subjects().size());
    auto& t = subjects()[i];
    Record* r = explored(i);
    u64 mode = s.below(12);
    fault = Fault();
    fault.kind = t.faults[s.below(t.faults.size())];
    fault.where = s.below(70);
    fault.flip = u8(1 + s.below(255));
    fault.side = int(s.below(2));
    auto nth = [](const std::bitset<values>& b, size_t k) { for (size_t v = 0; v < values; v++) if (b[v] && k-- == 0) return v; return values; };
    bool want = false;
    if (mode == 0)                      // both go wrong in the same way
    {
        fault.side = 2;
        fault.kind = always;
        want = true;
    }
    else if (mode <= 2 && t.pieces)     // both go wrong in the same way, but at different times
    {
        fault.side = 2;
        fault.kind = piece;
        size_t n = r->differ.count();
        if (n < 20) pbt::fail("floor", fmt("%s: two implementations are split differently in %zu sizes only", t.name, n));
        fault.value = nth(r->differ, s.below(n));
    }
    else
    {
        auto& b = r->seen[fault.side][fault.kind];
        size_t n = b.count();
        if (!n) pbt::fail("floor", fmt("%s: nothing explored of: %s", t.name, kind_name[fault.kind]));
        fault.value = nth(b, s.below(n));
    }
    c.note("%s side=%d %s=%zu where=%zu flip=%x", t.name, fault.side, kind_name[fault.kind], fault.value, fault.where, fault.flip);
    c.label(t.name);
    c.label(kind_name[fault.kind]);
    c.nontrivial = true;
    bool got = t.run();
    if (got && !want) pbt::fail("missed", "differential is true although the implementations differ in something it explores");
    if (!got && want) pbt::fail("false-alarm", "differential is false although both implementations always agree");
}
PBT_TEST("differential", differential, 1500, 40000, nullptr, nullptr, 0, 0,
         "differential over two implementations of our own, one (or both) of which returns something wrong for one drawn piece size, input byte, key byte, key size, output length, number of calls or direction out of those explored; all non-trivial", 120);

static void floors(Src& s, Ctx& c)
{
    size_t i = s.below(subjects().size());
    auto& t = subjects()[i];
    Record* r = explored(i);
    c.note("%s", t.name);
    c.nontrivial = true;
    for (auto [k, n]: t.floor)
        for (int side: {0, 1})
        {
            size_t got = r->seen[side][k].count();
            c.note(" %s=%zu", kind_name[k], got);
            if (got < n) pbt::fail("floor", fmt("%s: side %d: only %zu different %s explored, expected at least %zu", t.name, side, got, kind_name[k], n));
        }
    for (auto k: {piece, e_piece, d_piece})
    {
        bool has = false;
        for (auto f: t.faults) has |= f == k;
        if (has) for (int side: {0, 1})
        {
            auto& b = r->seen[side][k];
            size_t max = 0;
            for (size_t v = 0; v < values; v++) if (b[v]) max = v;
            if (!b[1]) pbt::fail("floor", fmt("%s: single bytes are not tried", t.name));
            Kind in = k == piece ? byte_at : k == e_piece ? e_byte : d_byte;
            size_t last = 0;
            for (size_t v = 0; v < values; v++) if (r->seen[side][in][v]) last = v;
            if (max < last + 1) pbt::fail("floor", fmt("%s: the input is never given in one piece", t.name));
        }
    }
}
PBT_TEST("exploration", floors, 0, 0, [](bool) { return subjects().size(); }, [](size_t i, bool) { return std::vector<u64>{i}; }, 0, 0,
         "what differential asks of two implementations, counted; all non-trivial", 120);

// ---- tests against a given value -------------------------------------------------------------
template<class B> struct Bytes_of { std::vector<B> v; };
template<class F> static void with(Src& s, const bytes& b, F f)
{
    switch (s.below(5))
    {
    case 0: f(b); break;
    case 1: f(std::string(b.begin(), b.end())); break;
    case 2: f(std::vector<signed char>(b.begin(), b.end())); break;
    case 3: { In<u8> i(s, b); f(std::span<const u8>(i.p, i.n)); break; }
    default: { In<char> i(s, b); f(std::string_view(i.p, i.n)); }
    }
}
// the expected value, or something else
static bytes other(Src& s, Ctx& c, const bytes& v, bool& same)
{
    bytes r = v;
    switch (s.below(8))
    {
    case 0: r.push_back(u8(s.below(3))); break;
    case 1: if (!r.empty()) r.resize(s.below(r.size())); break;
    case 2: if (!r.empty()) r[s.below(r.size())] ^= u8(1 << s.below(8)); break;
    case 3: if (!r.empty()) r.back() ^= u8(1 << s.below(8)); break;
    case 4: if (!r.empty()) r.erase(r.begin()); break;
    default: break;
    }
    same = r == v;
    c.label(same ? "equal" : "different");
    return r;
}
static void value(Src& s, Ctx& c)
{
    using namespace mp;
    bool same = true, got = false;
    const char* what = "";
    bytes m = s.content(s.below(3) ? s.below(80) : s.below(400));
    switch (s.below(9))
    {
    case 0:
    {
        what = "hash";
        bytes d = other(s, c, ref::hash(ref::sha256, m), same);
        with(s, m, [&](const auto& a) { with(s, d, [&](const auto& b) { got = hash::test::digest<hash_sha_2_256>(a, b); }); });
        break;
    }
    case 1:
    {
        what = "hmac";
        bytes k = s.content(s.below(150)), d = other(s, c, ref::hmac(ref::sha512, k, m), same);
        with(s, k, [&](const auto& a) { with(s, d, [&](const auto& b) { got = mac::test::digest<mac_hmac_sha_2_512>(a, m, b); }); });
        break;
    }
    case 2:
    {
        what = "poly1305";
        bytes k = s.content(32), d = other(s, c, ref::poly1305(k.data(), m), same);
        with(s, m, [&](const auto& a) { with(s, d, [&](const auto& b) { got = mac::test::digest<mac_poly_1305>(k, a, b); }); });
        break;
    }
    case 3:
    {
        what = "hkdf";
        bytes salt = s.content(s.below(70)), info = s.content(s.below(40)), full = ref::hkdf(ref::sha1, m, salt, info, 300);
        size_t n = s.below(200);
        bytes d = prefix(full, n), e = d;
        if (n && s.below(2)) e[s.below(n)] ^= u8(1 << s.below(8));
        same = d == e;
        c.label(same ? "equal" : "different");
        with(s, m, [&](const auto& a) { with(s, e, [&](const auto& b) { got = kdf::test::derive<kdf_hkdf_hmac_sha_1_160>(a, salt, info, b); }); });
        break;
    }
    case 4:
    {
        what = "pbkdf2";
        bytes salt = s.content(s.below(70));
        std::uint32_t it = 1 + s.below(4);
        size_t n = s.below(100);
        bytes d = ref::pbkdf2(ref::sha256, m, salt, it, n), e = d;
        if (n && s.below(2)) e[s.below(n)] ^= u8(1 << s.below(8));
        same = d == e;
        c.label(same ? "equal" : "different");
        with(s, m, [&](const auto& a) { with(s, e, [&](const auto& b) { got = kdf::test::derive<kdf_pbkdf_2_hmac_sha_2_256>(a, salt, it, b); }); });
        break;
    }
    case 5:
    {
        bool enc = s.below(2);
        what = enc ? "encrypt" : "decrypt";
        bytes k = s.content(32), v = s.content(16);
        u32 ctr;
        memcpy(&ctr, v.data(), 4);
        bytes d = other(s, c, ref::chacha20(k.data(), v.data() + 4, ctr, m), same);
        with(s, m, [&](const auto& a) { with(s, d, [&](const auto& b) {
            got = enc ? cipher::test::encrypt<cipher_chacha_20>(k, v, a, b) : cipher::test::decrypt<cipher_chacha_20>(k, v, a, b); }); });
        break;
    }
    case 6:
    {
        bool enc = s.below(2);
        what = enc ? "aead-encrypt" : "aead-decrypt";
        bytes k = s.content(32), v = s.content(12), ad = s.content(s.below(40)), ct = ref::chacha20(k.data(), v.data(), 1, m), tag = ref::aead_tag(k.data(), v.data(), ad, ct);
        bool s1, s2, s3 = true;
        bytes x = other(s, c, enc ? ct : m, s1), t = s.below(2) ? tag : other(s, c, tag, s2);
        s2 = t == tag;
        bytes in = enc || s.below(2) ? (enc ? m : ct) : other(s, c, ct, s3);
        same = s1 && s2 && s3;
        using T = aead::test<aead_chacha_20_poly_1305>;
        with(s, x, [&](const auto& a) { with(s, t, [&](const auto& b) { got = enc ? T::encrypt(k, v, ad, in, a, b) : T::decrypt(k, v, ad, in, b, a); }); });
        break;
    }
    case 7:
    {
        what = "encode";
        bool b16 = s.below(2);
        std::string e = b16 ? ref::base16(m) : ref::base64(m);
        bytes d = other(s, c, bytes(e.begin(), e.end()), same);
        with(s, m, [&](const auto& a) { with(s, d, [&](const auto& b) { got = b16 ? codec::test<codec_base_16>::encode(a, b) : codec::test<codec_base_64>::encode(a, b); }); });
        break;
    }
    default:
    {
        what = "decode";
        bool b16 = s.below(2), s1;
        std::string e = b16 ? ref::base16(m) : ref::base64(m);
        bytes t(e.begin(), e.end()), d = other(s, c, m, s1);
        same = s1;
        if (!t.empty() && s.below(3) == 0) t[s.below(t.size())] = "!~\0\n_"[s.below(5)], same = false;
        with(s, t, [&](const auto& a) { with(s, d, [&](const auto& b) { got = b16 ? codec::test<codec_base_16>::decode(a, b) : codec::test<codec_base_64>::decode(a, b); }); });
    }
    }
    c.note("%s len=%zu %s", what, m.size(), same ? "equal" : "different");
    c.label(what);
    c.nontrivial = true;
    if (got != same) pbt::fail(same ? "false-alarm" : "missed", fmt("the %s test is %s for %s values", what, got ? "true" : "false", same ? "equal" : "different"));
}
PBT_TEST("value", value, 150000, 5000000, nullptr, nullptr, 0, 0,
         "tests of one operation against the right value or one that differs in a bit or in size, or with an input that cannot be processed; all non-trivial");

int main(int argc, char** argv) { return pbt::main(argc, argv); }
