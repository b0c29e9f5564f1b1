// C18: outputs have exactly the size of the result, what does not fit is left out where the
// interface says so, and nothing but the result is written.
#include "../lib/drv.h"
#include <milo/error.h>
using namespace drv;

// ---- watched output containers
// the user's resizable container: storage with room to spare, so a write beyond size() is seen
template<class B> struct Dyn
{
    using value_type = B;
    Out<B>* o = nullptr;
    size_t n = 0, high = 0;
    B* data() noexcept { return o ? o->p : nullptr; }
    const B* data() const noexcept { return o ? o->p : nullptr; }
    size_t size() const noexcept { return n; }
    void reserve(size_t) {}
    void resize(size_t k, B v)
    {
        if (k > o->n) pbt::fail("size-huge", fmt("a resizable output was resized to %zu", k));
        for (size_t i = n; i < k; i++) o->p[i] = v;
        n = k;
        high = std::max(high, n);
    }
};
// the user's fixed container, laid over watched memory
template<class B, size_t N> struct Fix
{
    using value_type = B;
    B a[N];
    constexpr B* data() noexcept { return a; }
    constexpr const B* data() const noexcept { return a; }
    constexpr size_t size() const noexcept { return N; }
};

// Gives `call` an output container in a drawn form.  `full`: the result if everything fits;
// fit: whether a fixed container may be too small (digests, tags, keys) or must have room.
// Returns through check() whether size and contents are right.
struct Sink
{
    Src& s;
    Ctx& c;
    const bytes& full;
    bool may_cut;
    const char* what;

    void verdict(const char* kind, size_t reported, size_t size_after, size_t cap, const u8* p, bool dynamic)
    {
        size_t want = dynamic ? full.size() : std::min(full.size(), cap);
        if (reported != want) pbt::fail("reported-size", fmt("%s into %s reported %zu bytes, expected %zu", what, kind, reported, want));
        if (size_after != (dynamic ? full.size() : cap)) pbt::fail("container-size", fmt("%s into %s left its size at %zu, expected %zu", what, kind, size_after, dynamic ? full.size() : cap));
        pbt::same("contents", bytes(p, p + want), prefix(full, want), fmt("%s into %s of %zu bytes", what, kind, cap));
        c.nontrivial = c.nontrivial || want;
        if (!dynamic && cap < full.size()) c.label("cut");
        if (!dynamic && cap > full.size()) c.label("room-left");
    }
    template<class B, class F> void dyn(F call)
    {
        c.label("resizable");
        size_t before = s.below(3) == 0 ? full.size() : s.below(full.size() + 40);
        switch (s.below(4))
        {
        case 0:
        {
            std::vector<B> v(before, B(0x33));
            if (s.below(2)) v.reserve(full.size() + 64);
            size_t r = call(v);
            verdict("a vector", r, v.size(), 0, (const u8*)v.data(), true);
            break;
        }
        case 1:
        {
            std::string v(before, 'q');
            size_t r = call(v);
            verdict("a string", r, v.size(), 0, (const u8*)v.data(), true);
            break;
        }
        default:
        {
            Out<B> o(s, std::max(full.size(), before) + 64);
            Dyn<B> v{&o, before, before};
            size_t r = call(v);
            o.check(what, v.high);
            if (full.size() < v.high)      // shrunk: what was there stays
                for (size_t i = std::max(full.size(), v.n); i < std::min(before, v.high); i++)
                    if (o.m.p[i] != Out<B>::fill(i)) pbt::fail("beyond-result", fmt("%s wrote byte %zu, past the result", what, i));
            verdict("a resizable container", r, v.n, 0, o.m.p, true);
        }
        }
    }
    template<class B, size_t N, class F> void fixed(F call)
    {
        Out<B> o(s, N);
        bool std_array = s.below(2), as_span = s.below(3) == 0;
        size_t r, after = N;
        if (as_span) { std::span<B, N> v(o.p, N); r = call(v); after = v.size(); if (v.data() != o.p) pbt::fail("span-moved", "a span output was changed"); }
        else if (std_array) r = call(*reinterpret_cast<std::array<B, N>*>(o.p));
        else r = call(*reinterpret_cast<Fix<B, N>*>(o.p));
        o.check(what, std::min(r, full.size()));
        verdict(as_span ? "a fixed-size span" : std_array ? "an array" : "a fixed container", r, after, N, o.m.p, false);
        c.label("fixed");
    }
    template<class B, class F> void view(F call)
    {
        size_t cap = full.size();
        if (may_cut) cap = s.below(2) ? s.below(full.size() + 40) : full.size() - std::min(full.size(), s.below(4));
        else cap += s.below(2) ? s.below(40) : 0;
        Out<B> o(s, cap);
        size_t r, after;
        if (s.below(2)) { std::span<B> v(o.p, cap); r = call(v); after = v.size(); if (v.data() != o.p) pbt::fail("span-moved", "a span output was changed"); }
        else { Own<B> v; v.ptr = o.p; v.len = cap; r = call(v); after = v.size(); if (v.data() != o.p) pbt::fail("span-moved", "a view output was changed"); }
        o.check(what, std::min(r, full.size()));
        verdict("a view", r, after, cap, o.m.p, false);
        c.label("view");
    }
    // Ns: fixed sizes offered
    template<class B, size_t... Ns, class F> void go(F call, std::index_sequence<Ns...>)
    {
        switch (s.below(3))
        {
        case 0: return dyn<B>(call);
        case 1: return view<B>(call);
        }
        size_t ok[sizeof...(Ns)], n = 0;
        ((may_cut || Ns >= full.size() ? void(ok[n++] = Ns) : void()), ...);
        if (!n) return view<B>(call);
        size_t N = ok[s.below(n)];
        ((N == Ns ? fixed<B, Ns>(call) : void()), ...);
    }
    template<class B, class F> void ptr(F call)
    {
        Out<B> o(s, full.size());
        size_t r = call(o.p);
        o.check(what, std::min(r, full.size()));
        verdict("memory", r, full.size(), full.size(), o.m.p, false);
    }
};
using DigestNs = std::index_sequence<1, 15, 16, 17, 20, 31, 32, 33, 48, 64, 65>;
using KeyNs = std::index_sequence<1, 20, 31, 32, 33, 64, 97>;
using TextNs = std::index_sequence<1, 16, 63, 64, 65, 128, 200, 400>;

// f(sink form): every way of asking object `a` for its digest, several times
template<class B, size_t DS, class A> static void digests(Src& s, Ctx& c, A& a, const bytes& full)
{
    for (size_t i = 0, m = 1 + s.below(3); i < m; i++)
    {
        size_t n = s.below(4) == 0 ? s.below(200) : s.below(DS + 4);
        bytes part = prefix(full, n);
        switch (s.below(4))
        {
        case 0: Sink{s, c, full, true, "digest(c)"}.template go<B>([&](auto& v) { return a.digest(v); }, DigestNs{}); break;
        case 1: c.note(" n=%zu", n); Sink{s, c, part, true, "digest(c, n)"}.template go<B>([&](auto& v) { return a.digest(v, n); }, DigestNs{}); break;
        case 2: c.note(" n=%zu", n); Sink{s, c, part, true, "digest(p, n)"}.template ptr<B>([&](B* p) { return a.digest(p, n); }); break;
        default: Sink{s, c, full, true, "digest(p)"}.template ptr<B>([&](B* p) { return a.digest(p); });
        }
    }
}
template<class T, class B> static void hash_sizes(Src& s, Ctx& c, ref::Alg g)
{
    bytes m = s.content(s.size(400, 64));
    bytes full = ref::hash(g, m);
    std::span<const u8> ms(m);
    size_t n = s.below(4) == 0 ? s.below(200) : s.below(T::digest_size + 4);
    bytes part = prefix(full, n);
    c.note("%s len=%zu", ref::alg_name[g], m.size());
    switch (s.below(4))
    {
    case 0: Sink{s, c, full, true, "hash::digest(m, c)"}.template go<B>([&](auto& v) { return mp::hash::digest<T>(ms, v); }, DigestNs{}); break;
    case 1: Sink{s, c, part, true, "hash::digest(m, c, n)"}.template go<B>([&](auto& v) { return mp::hash::digest<T>(ms, v, n); }, DigestNs{}); break;
    case 2: Sink{s, c, part, true, "hash::digest(m, p, n)"}.template ptr<B>([&](B* p) { return mp::hash::digest<T>(m.data(), m.size(), p, n); }); break;
    default:
        mp::hash::apie<T> a;
        a.update(ms);
        digests<B, T::digest_size>(s, c, a, full);
    }
}
template<class T, class B> static void mac_sizes(Src& s, Ctx& c, const bytes& k, const bytes& m, const bytes& full)
{
    std::span<const u8> ks(k), ms(m);
    size_t n = s.below(4) == 0 ? s.below(200) : s.below(T::digest_size + 4);
    bytes part = prefix(full, n);
    switch (s.below(4))
    {
    case 0: Sink{s, c, full, true, "mac::digest(k, m, c)"}.template go<B>([&](auto& v) { return mp::mac::digest<T>(ks, ms, v); }, DigestNs{}); break;
    case 1: Sink{s, c, part, true, "mac::digest(k, m, c, n)"}.template go<B>([&](auto& v) { return mp::mac::digest<T>(ks, ms, v, n); }, DigestNs{}); break;
    case 2: Sink{s, c, part, true, "mac::digest(k, m, p, n)"}.template ptr<B>([&](B* p) { return mp::mac::digest<T>(k.data(), k.size(), m.data(), m.size(), p, n); }); break;
    default:
        mp::mac::apie<T> a(ks);
        a.update(ms);
        digests<B, T::digest_size>(s, c, a, full);
    }
}
// successive derivations: a cut one continues where its output ended
template<class T, class B, class... In> static void kdf_sizes(Src& s, Ctx& c, const bytes& stream, In... in)
{
    size_t room = stream.size();
    size_t n = s.below(room + 1);
    bytes part = prefix(stream, n);
    switch (s.below(3))
    {
    case 0: c.note(" n=%zu", n); Sink{s, c, part, true, "kdf::derive(.., c, n)"}.template go<B>([&](auto& v) { return mp::kdf::derive<T>(in..., v, n); }, KeyNs{}); return;
    case 1:
    {
        auto v = mp::kdf::derive<T, std::vector<B>>(in..., n);
        pbt::same("contents", bytes(v.begin(), v.end()), part, "derive by value");
        return;
    }
    }
    mp::kdf::apie<T> a(in...);
    size_t pos = 0;
    for (size_t i = 0, m = 1 + s.below(4); i < m; i++)
    {
        n = s.below(room - pos + 1);
        size_t used = n;
        part = bytes(stream.begin() + pos, stream.begin() + pos + n);
        c.note(" n=%zu", n);
        if (s.below(3) == 0) Sink{s, c, part, true, "derive(p, n)"}.template ptr<B>([&](B* p) { return a.derive(p, n); });
        else Sink{s, c, part, true, "derive(c, n)"}.template go<B>([&](auto& v) { return used = a.derive(v, n); }, KeyNs{});
        pos += used;
    }
}

#if PART == 1
static void digest_sizes(Src& s, Ctx& c)
{
    with_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        switch (s.below(8))
        {
        case 0: return hash_sizes<mp::hash_sha_2_256, B>(s, c, ref::sha256);
        case 1: return hash_sizes<mp::hash_sha_1_160, B>(s, c, ref::sha1);
        case 2: return hash_sizes<mp::hash_sha_2_512, B>(s, c, ref::sha512);
        case 3: return hash_sizes<mp::hash_sha_2_224, B>(s, c, ref::sha224);
        case 4: return hash_sizes<mp::hash_sha_2_384, B>(s, c, ref::sha384);
        case 5: return hash_sizes<mp::hash_sha_2_512_224, B>(s, c, ref::sha512_224);
        case 6: return hash_sizes<mp::hash_sha_2_512_256, B>(s, c, ref::sha512_256);
        default: return hash_sizes<mp::hash_sha_2_256_sw, B>(s, c, ref::sha256);
        }
    });
}
PBT_TEST("hash-sizes", digest_sizes, 700000, 14000000, nullptr, nullptr, 200000, 3000000,
         "a digest requested at a drawn size in every call form, into a vector, string, user-defined resizable, fixed or view container of drawn size in watched memory, or raw memory; the reported size, container size, contents and every other byte are checked; non-trivial: some result byte");
#elif PART == 2
static void mac_all(Src& s, Ctx& c)
{
    with_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        u64 k = s.below(5);
        bytes m = s.content(s.size(400, 64)), key = s.content(k == 0 ? 32 : s.size(200, 64));
        c.note("mac %d key=%zu len=%zu", int(k), key.size(), m.size());
        switch (k)
        {
        case 0: return mac_sizes<mp::mac_poly_1305, B>(s, c, key, m, ref::poly1305(key.data(), m));
        case 1: return mac_sizes<mp::mac_hmac_sha_2_256, B>(s, c, key, m, ref::hmac(ref::sha256, key, m));
        case 2: return mac_sizes<mp::mac_hmac_sha_2_384, B>(s, c, key, m, ref::hmac(ref::sha384, key, m));
        case 3: return mac_sizes<mp::mac_hmac_sha_1_160, B>(s, c, key, m, ref::hmac(ref::sha1, key, m));
        default: return mac_sizes<mp::mac_hmac_sha_2_512, B>(s, c, key, m, ref::hmac(ref::sha512, key, m));
        }
    });
}
PBT_TEST("mac-sizes", mac_all, 500000, 10000000, nullptr, nullptr, 200000, 3000000,
         "the same for HMAC and Poly1305 tags; non-trivial: some result byte");
#elif PART == 3
static void kdf_all(Src& s, Ctx& c)
{
    with_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        bytes i = s.content(s.below(80)), sa = s.content(s.below(80)), inf = s.content(s.below(40));
        std::span<const u8> is(i), ss(sa), fs(inf);
        size_t len = s.size(300, 32);
        u64 k = s.below(4);
        c.note("kdf %d up to %zu", int(k), len);
        switch (k)
        {
        case 0: return kdf_sizes<mp::kdf_hkdf_hmac_sha_2_256, B>(s, c, ref::hkdf(ref::sha256, i, sa, inf, len), is, ss, fs);
        case 1: return kdf_sizes<mp::kdf_hkdf_hmac_sha_1_160, B>(s, c, ref::hkdf(ref::sha1, i, sa, inf, len), is, ss, fs);
        case 2: return kdf_sizes<mp::kdf_pbkdf_2_hmac_sha_2_256, B>(s, c, ref::pbkdf2(ref::sha256, i, sa, 2, len), is, ss, size_t(2));
        default: return kdf_sizes<mp::kdf_pbkdf_2_hmac_sha_2_512, B>(s, c, ref::pbkdf2(ref::sha512, i, sa, 1, len), is, ss, size_t(1));
        }
    });
}
PBT_TEST("kdf-sizes", kdf_all, 300000, 6000000, nullptr, nullptr, 100000, 2000000,
         "derivations at drawn sizes, also successive ones after a derivation cut by a fixed container; non-trivial: some result byte");
#elif PART == 4
template<class T, class B> static void cipher_sizes(Src& s, Ctx& c)
{
    bytes k = s.content(32), v = s.content(16), m = s.content(s.size(300, 64));
    u32 ctr = v[0] | v[1] << 8 | v[2] << 16 | u32(v[3]) << 24;
    bytes full = ref::chacha20(k.data(), v.data() + 4, ctr, m);
    std::span<const u8> ks(k), vs(v), ms(m);
    c.note("chacha20 len=%zu", m.size());
    switch (s.below(4))
    {
    case 0: return Sink{s, c, full, false, "cipher::encrypt(.., c)"}.template go<B>([&](auto& o) { return mp::cipher::encrypt<T>(ks, vs, ms, o); }, TextNs{});
    case 1: return Sink{s, c, full, false, "cipher::decrypt(.., c)"}.template go<B>([&](auto& o) { return mp::cipher::decrypt<T>(ks, vs, ms, o); }, TextNs{});
    case 2: return Sink{s, c, full, false, "cipher::encrypt(.., p)"}.template ptr<B>([&](B* p) { return mp::cipher::encrypt<T>(k.data(), k.size(), v.data(), v.size(), m.data(), m.size(), p); });
    }
    mp::cipher::apie<T> a(ks, vs);
    size_t pos = 0;
    bool enc = s.below(2);
    for (size_t x: split(s, m.size(), 64))
    {
        bytes part(full.begin() + pos, full.begin() + pos + x);
        std::span<const u8> in(m.data() + pos, x);
        if ((enc ? a.encrypt_size(in) : a.decrypt_size(in)) != x) pbt::fail("announced-size", "encrypt_size/decrypt_size differ from what the call produces");
        Sink k1{s, c, part, false, enc ? "encrypt(m, c)" : "decrypt(m, c)"};
        if (enc) k1.template go<B>([&](auto& o) { return a.encrypt(in, o); }, TextNs{});
        else k1.template go<B>([&](auto& o) { return a.decrypt(in, o); }, TextNs{});
        pos += x;
    }
}
template<class T, class B> static void aead_sizes(Src& s, Ctx& c)
{
    bytes k = s.content(32), v = s.content(12), ad = s.content(s.below(40)), m = s.content(s.size(300, 64));
    bytes ct = ref::chacha20(k.data(), v.data(), 1, m), tag = ref::aead_tag(k.data(), v.data(), ad, ct), dtag = ref::aead_tag(k.data(), v.data(), ad, m);
    std::span<const u8> ks(k), vs(v), as(ad), ms(m), ts(dtag);
    c.note("aead aad=%zu len=%zu", ad.size(), m.size());
    switch (s.below(4))
    {
    case 0:
    {
        // two outputs of one call: the tag goes into a watched one, then the text does
        bool text = s.below(2);
        size_t r0 = 0, r1 = 0;
        if (text)
        {
            std::array<B, 16> t;
            Sink{s, c, ct, false, "aead::encrypt(.., c, tag)"}.template go<B>([&](auto& o) { auto r = mp::aead::encrypt<T>(ks, vs, as, ms, o, t); r1 = r.item_1; return r0 = r.item_0; }, TextNs{});
            if (r1 != 16) pbt::fail("reported-size", fmt("the tag size is reported as %zu", r1));
            pbt::same("contents", bytes(t.begin(), t.end()), tag, "tag");
        }
        else
        {
            std::vector<B> o;
            Sink{s, c, tag, true, "aead::encrypt(.., text, c)"}.template go<B>([&](auto& t) { auto r = mp::aead::encrypt<T>(ks, vs, as, ms, o, t); r0 = r.item_0; return r1 = r.item_1; }, DigestNs{});
            if (r0 != m.size() || o.size() != m.size()) pbt::fail("reported-size", "the text size is not the message size");
            pbt::same("contents", bytes(o.begin(), o.end()), ct, "text");
        }
        return;
    }
    case 1: return Sink{s, c, ct, false, "aead::decrypt(.., c)"}.template go<B>([&](auto& o) { return mp::aead::decrypt<T>(ks, vs, as, ms, ts, o); }, TextNs{});
    case 2:
    {
        milo::error e = milo::error::size;
        dtag[s.below(16)] ^= 1 << s.below(8);      // a wrong tag: at most the text is written
        Out<B> o(s, m.size() + s.below(40));
        std::span<B> os(o.p, o.n);
        mp::aead::decrypt<T>(ks, vs, as, ms, ts, os, e);
        o.check("aead::decrypt of a forged text", m.size());
        return;
    }
    }
    mp::aead::apie<T> a(ks, vs);
    a.aad(as);
    bool enc = s.below(2);
    size_t pos = 0;
    for (size_t x: split(s, m.size(), 64))
    {
        bytes part(ct.begin() + pos, ct.begin() + pos + x);
        std::span<const u8> in(m.data() + pos, x);
        if ((enc ? a.encrypt_size(in) : a.decrypt_size(in)) != x) pbt::fail("announced-size", "encrypt_size/decrypt_size differ from what the call produces");
        Sink k1{s, c, part, false, enc ? "encrypt(m, c)" : "decrypt(m, c)"};
        if (enc) k1.template go<B>([&](auto& o) { return a.encrypt(in, o); }, TextNs{});
        else k1.template go<B>([&](auto& o) { return a.decrypt(in, o); }, TextNs{});
        pos += x;
    }
    digests<B, 16>(s, c, a, enc ? tag : dtag);
}
static void text_all(Src& s, Ctx& c)
{
    with_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        switch (s.below(4))
        {
        case 0: return cipher_sizes<mp::cipher_chacha_20, B>(s, c);
        case 1: return cipher_sizes<mp::cipher_chacha_20_sw, B>(s, c);
        case 2: return aead_sizes<mp::aead_chacha_20_poly_1305, B>(s, c);
        default: return aead_sizes<mp::aead_chacha_20_sw_poly_1305_sw, B>(s, c);
        }
    });
}
PBT_TEST("text-sizes", text_all, 700000, 14000000, nullptr, nullptr, 200000, 3000000,
         "cipher and AEAD texts and tags in every call form into watched containers, split calls, announced sizes, forged texts; non-trivial: some result byte");
#elif PART == 5
template<class T, class B> static void codec_sizes(Src& s, Ctx& c, bool b64)
{
    using A = mp::codec::apie<T>;
    bytes m = s.content(s.below(4) == 0 ? s.below(400) : s.below(60));
    std::string ts = b64 ? ref::base64(m) : ref::base16(m);
    bytes text(ts.begin(), ts.end());
    std::span<const u8> ms(m), xs(text);
    bool odd = !b64 && !text.empty() && s.below(3) == 0;
    if (odd) { text[0] = '0' + text[0] % 10; m[0] = text[0] - '0'; m.erase(m.begin()); text.erase(text.begin()); }
    if (odd)
    {
        // the first digit alone stands for a byte
        bytes w;
        std::string t2 = "0" + std::string(text.begin(), text.end());
        ref::unbase16(t2, w);
        m = w;
        ms = m;
    }
    xs = std::span<const u8>(text);
    c.note("base-%d %s len=%zu%s", b64 ? 64 : 16, "", m.size(), odd ? " odd" : "");
    switch (s.below(6))
    {
    case 0:
        if (odd) return;
        if (A::encode_size(ms) != text.size()) pbt::fail("announced-size", "encode_size");
        return Sink{s, c, text, false, "encode(m, c)"}.template go<B>([&](auto& o) { return s.below(2) ? A::encode(ms, o) : mp::codec::encode<T>(ms, o); }, TextNs{});
    case 1:
        if (odd) return;
        return Sink{s, c, text, false, "encode(m, p)"}.template ptr<B>([&](B* p) { return A::encode(m.data(), m.size(), p); });
    case 2: return Sink{s, c, m, false, "decode(t, p)"}.template ptr<B>([&](B* p) { return A::decode(text.data(), text.size(), p); });
    case 3:
        if (A::decode_size(xs) != m.size()) pbt::fail("announced-size", fmt("decode_size says %zu for %zu bytes", size_t(A::decode_size(xs)), m.size()));
        return Sink{s, c, m, false, "decode(t, c)"}.template go<B>([&](auto& o) { return s.below(2) ? A::decode(xs, o) : mp::codec::decode<T>(xs, o); }, TextNs{});
    case 4:
    {
        milo::error e = milo::error::size;
        return Sink{s, c, m, false, "decode(t, c, e)"}.template go<B>([&](auto& o) { return s.below(2) ? A::decode(xs, o, e) : mp::codec::decode<T>(xs, o, e); }, TextNs{});
    }
    default:
    {
        // text that is not an encoding: nothing beyond the announced size is touched
        if (text.empty()) return;
        text[s.below(text.size())] = "!-_ \n%~"[s.below(7)];
        milo::error e;
        size_t ds = A::decode_size(xs);
        Out<B> o(s, ds + s.below(30));
        std::span<B> os(o.p, o.n);
        size_t r = s.below(2) ? A::decode(xs, os, e) : mp::codec::decode<T>(xs, os, e);
        if (r > ds) pbt::fail("reported-size", fmt("a failing decode reported %zu bytes", r));
        o.check("failing decode", ds);
        Out<B> o2(s, ds + 30);
        Dyn<B> d{&o2, s.below(30), 30};
        r = A::decode(xs, d, e);
        if (r != d.size() || r > ds) pbt::fail("container-size", fmt("a failing decode reported %zu bytes and left the container at %zu of %zu", r, d.size(), ds));
        o2.check("failing decode", std::max<size_t>(ds, 30));
        c.nontrivial = true;
        c.label("invalid");
    }
    }
}
static void codec_all(Src& s, Ctx& c)
{
    with_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        if (s.below(2)) codec_sizes<mp::codec_base_64, B>(s, c, true);
        else codec_sizes<mp::codec_base_16, B>(s, c, false);
    });
}
PBT_TEST("codec-sizes", codec_all, 700000, 14000000, nullptr, nullptr, 200000, 3000000,
         "encoding and decoding in every call form into watched containers of drawn sizes, announced sizes, invalid texts; non-trivial: some result byte");
#endif
