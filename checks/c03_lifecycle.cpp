// C03: algorithm objects are independent values; model-based over a pool of live objects.
#include "../lib/drv.h"
#include <memory>
#include <utility>
using namespace drv;
using sp = std::shared_ptr<bytes>;
static sp keep(bytes b) { return std::make_shared<bytes>(std::move(b)); }

// every Traits: Obj, Model, init, work, result (may be asked again), usable when model.ready
template<class O> size_t dig(Src& s, O& o, size_t ds, bytes& out)
{
    out.assign(ds, 0xEE);
    size_t n = s.below(ds + 5), e = std::min(n, ds), r;
    if (s.below(2)) { r = o.digest(out.data()); e = ds; }
    else r = o.digest(out.data(), n);
    if (r != e) pbt::fail("digest-size", fmt("digest returned %zu, expected %zu", r, e));
    for (size_t i = e; i < ds; i++) if (out[i] != 0xEE) pbt::fail("beyond-result", "digest wrote beyond its size");
    out.resize(e);
    return e;
}

template<class T, ref::Alg A, bool plain> struct HashT
{
    using Obj = std::conditional_t<plain, T, mp::hash::apie<T>>;
    struct Model { bool ready = false, fin = false; bytes m; };
    static constexpr bool fresh_ready = !plain;
    static void init(Src&, Obj& o, Model& m) { o.initialize(); m = Model{true}; }
    static void construct(Src& s, void* p, Model& m) { new (p) Obj(); m = Model{}; m.ready = fresh_ready; (void)s; }
    static void work(Src& s, Obj& o, Model& m)
    {
        if (m.fin) return;
        bytes x = s.content(s.below(2) ? s.below(140) : s.below(3));
        o.update(x.data(), x.size());
        m.m.insert(m.m.end(), x.begin(), x.end());
    }
    static void result(Src& s, Obj& o, Model& m)
    {
        if constexpr (plain) { if (!m.fin) o.finalize(); }
        m.fin = true;
        bytes d;
        dig(s, o, T::digest_size, d);
        want_prefix("result", d, ref::hash(A, m.m), "digest");
    }
};
template<class T, class F, bool plain> struct MacT
{
    using Obj = std::conditional_t<plain, T, mp::mac::apie<T>>;
    struct Model { bool ready = false, fin = false; bytes k, m; };
    static bytes key(Src& s) { return s.content(F::poly ? 32 : s.below(300)); }
    static void init(Src& s, Obj& o, Model& m)
    {
        bytes k = key(s);
        o.initialize(k.data(), k.size());
        m = Model{true, false, k, {}};
    }
    static void construct(Src& s, void* p, Model& m)
    {
        m = Model{};
        if constexpr (!plain)
            if (s.below(2))
            {
                bytes k = key(s);
                if (s.below(2)) new (p) Obj(k.data(), k.size()); else new (p) Obj(k);
                m = Model{true, false, k, {}};
                return;
            }
        new (p) Obj();
    }
    static void work(Src& s, Obj& o, Model& m)
    {
        if (m.fin) return;
        bytes x = s.content(s.below(2) ? s.below(140) : s.below(3));
        o.update(x.data(), x.size());
        m.m.insert(m.m.end(), x.begin(), x.end());
    }
    static void result(Src& s, Obj& o, Model& m)
    {
        bytes want = F::f(m.k, m.m);
        if constexpr (plain) { if (!m.fin) o.finalize(); }
        m.fin = true;
        bytes d;
        dig(s, o, T::digest_size, d);
        want_prefix("result", d, want, "tag");
    }
};
template<ref::Alg A> struct Hm { static constexpr bool poly = false; static bytes f(const bytes& k, const bytes& m) { return ref::hmac(A, k, m); } };
struct Po { static constexpr bool poly = true; static bytes f(const bytes& k, const bytes& m) { return ref::poly1305(k.data(), m); } };

template<class T, bool plain> struct CipherT
{
    using Obj = std::conditional_t<plain, T, mp::cipher::apie<T>>;
    struct Model { bool ready = false; bytes k, v; size_t pos = 0; };
    static void init(Src& s, Obj& o, Model& m)
    {
        bytes k = s.content(32), v = s.content(16);
        o.initialize(k.data(), 32, v.data(), 16);
        m = Model{true, k, v, 0};
    }
    static void construct(Src& s, void* p, Model& m)
    {
        m = Model{};
        if constexpr (!plain)
            if (s.below(2))
            {
                bytes k = s.content(32), v = s.content(16);
                if (s.below(2)) new (p) Obj(k.data(), 32, v.data(), 16); else new (p) Obj(k, v);
                m = Model{true, k, v, 0};
                return;
            }
        new (p) Obj();
    }
    static bytes expect(const Model& m, const bytes& x)
    {
        u32 ctr = u32(m.v[0]) | u32(m.v[1]) << 8 | u32(m.v[2]) << 16 | u32(m.v[3]) << 24;
        bytes all(m.pos % 64 + x.size(), 0), r;
        std::copy(x.begin(), x.end(), all.begin() + m.pos % 64);
        r = ref::chacha20(m.k.data(), m.v.data() + 4, ctr + u32(m.pos / 64), all);
        return bytes(r.begin() + m.pos % 64, r.end());
    }
    static void work(Src& s, Obj& o, Model& m)
    {
        bytes x = s.content(s.below(4) ? s.below(150) : s.below(1500)), y(x.size());
        if (s.below(2)) o.encrypt(x.data(), x.size(), y.data()); else o.decrypt(x.data(), x.size(), y.data());
        pbt::same("result", y, expect(m, x), fmt("cipher bytes at %zu", m.pos));
        m.pos += x.size();
    }
    static void result(Src& s, Obj& o, Model& m) { work(s, o, m); }
};
template<class T, bool plain> struct AeadT
{
    using Obj = std::conditional_t<plain, T, mp::aead::apie<T>>;
    struct Model { bool ready = false, text = false, fin = false; bytes k, v, ad, ct; };
    static void init(Src& s, Obj& o, Model& m)
    {
        bytes k = s.content(32), v = s.content(12);
        o.initialize(k.data(), 32, v.data(), 12);
        m = Model{true, false, false, k, v, {}, {}};
    }
    static void construct(Src& s, void* p, Model& m)
    {
        m = Model{};
        if constexpr (!plain)
            if (s.below(2))
            {
                bytes k = s.content(32), v = s.content(12);
                if (s.below(2)) new (p) Obj(k.data(), 32, v.data(), 12); else new (p) Obj(k, v);
                m = Model{true, false, false, k, v, {}, {}};
                return;
            }
        new (p) Obj();
    }
    static void work(Src& s, Obj& o, Model& m)
    {
        if (m.fin) return;
        bytes x = s.content(s.below(2) ? s.below(100) : s.below(20)), y(x.size());
        if (!m.text && s.below(2))
        {
            o.aad(x.data(), x.size());
            m.ad.insert(m.ad.end(), x.begin(), x.end());
            return;
        }
        m.text = true;
        bytes all = m.ct;
        size_t at = m.ct.size();
        bool dec = s.below(2);
        if (dec) o.decrypt(x.data(), x.size(), y.data()); else o.encrypt(x.data(), x.size(), y.data());
        bytes z(at % 64 + x.size(), 0);
        std::copy(x.begin(), x.end(), z.begin() + at % 64);
        z = ref::chacha20(m.k.data(), m.v.data(), 1 + u32(at / 64), z);
        pbt::same("result", y, bytes(z.begin() + at % 64, z.end()), "aead bytes");
        const bytes& c = dec ? x : y;
        m.ct.insert(m.ct.end(), c.begin(), c.end());
    }
    static void result(Src& s, Obj& o, Model& m)
    {
        bytes want = ref::aead_tag(m.k.data(), m.v.data(), m.ad, m.ct);
        if constexpr (plain) { if (!m.fin) o.finalize(); }
        else if (s.below(4) == 0)
        {
            m.fin = true;
            bytes t = want;
            bool bad = s.below(2);
            if (bad) t[s.below(16)] ^= u8(1 + s.below(255));
            milo::error e = milo::error::size;
            o.verify(t.data(), t.size(), e);
            if (bool(e) != bad) pbt::fail("verify", fmt("verify reported %d for a %s tag", int(bool(e)), bad ? "wrong" : "right"));
            return;
        }
        m.fin = true;
        bytes d;
        dig(s, o, 16, d);
        want_prefix("result", d, want, "tag");
    }
};
template<class T, ref::Alg A, bool hk, bool plain> struct KdfT
{
    using Obj = std::conditional_t<plain, T, mp::kdf::apie<T>>;
    struct Model { bool ready = false; sp i, sa, f; size_t it = 1, pos = 0; };
    static void init(Src& s, Obj& o, Model& m)
    {
        m = Model{true, keep(s.content(s.below(100))), keep(s.content(s.below(100))), keep(s.content(s.below(40))), 1 + s.below(3), 0};
        if constexpr (hk) o.initialize(m.i->data(), m.i->size(), m.sa->data(), m.sa->size(), m.f->data(), m.f->size());
        else o.initialize(m.i->data(), m.i->size(), m.sa->data(), m.sa->size(), m.it);
    }
    static void construct(Src&, void* p, Model& m) { m = Model{}; new (p) Obj(); }
    static void work(Src& s, Obj& o, Model& m)
    {
        size_t n = s.below(3) ? s.below(40) : s.below(150);
        if (m.pos + n > 2000) return;
        bytes y(n);
        o.derive(y.data(), n);
        bytes w = hk ? ref::hkdf(A, *m.i, *m.sa, *m.f, m.pos + n) : ref::pbkdf2(A, *m.i, *m.sa, m.it, m.pos + n);
        pbt::same("result", y, bytes(w.begin() + m.pos, w.end()), fmt("key bytes at %zu", m.pos));
        m.pos += n;
    }
    static void result(Src& s, Obj& o, Model& m) { work(s, o, m); }
};

template<class Tr> void life(Src& s, Ctx& c)
{
    using Obj = typename Tr::Obj;
    using Model = typename Tr::Model;
    constexpr size_t N = 4;
    struct Slot { alignas(64) unsigned char mem[sizeof(Obj) + 64]; Model m; bool live = false; Obj& o() { return *std::launder((Obj*)mem); } };
    auto pool = std::make_unique<std::array<Slot, N>>();
    auto& P = *pool;
    auto kill = [&](size_t i) { if (P[i].live) { P[i].o().~Obj(); P[i].live = false; } };
    auto raw = [&](size_t i) { kill(i); memset(P[i].mem, int(s.below(256)), sizeof P[i].mem); return (void*)P[i].mem; };
    size_t steps = 4 + s.below(28), copies = 0, worked = 0;
    std::string log;
    struct Clean { decltype(kill)& k; ~Clean() { for (size_t i = 0; i < N; i++) k(i); } } clean{kill};
    for (size_t t = 0; t < steps; t++)
    {
        size_t i = s.below(N), j = s.below(N);
        u64 op = s.below(16);
        if (!P[i].live || (!P[i].m.ready && op >= 3))
        {
            // nothing useful there yet
            if (!P[i].live) { Tr::construct(s, raw(i), P[i].m); P[i].live = true; log += fmt(" new(%zu)", i); }
            if (!P[i].m.ready) { Tr::init(s, P[i].o(), P[i].m); log += fmt(" init(%zu)", i); }
            continue;
        }
        switch (op)
        {
        case 0: log += fmt(" destroy(%zu)", i); kill(i); break;
        case 1: log += fmt(" init(%zu)", i); Tr::init(s, P[i].o(), P[i].m); break;
        case 2: log += fmt(" new(%zu)", i); Tr::construct(s, raw(i), P[i].m); P[i].live = true; break;
        case 3: case 4:
            if (i == j) break;
            log += fmt(" copy(%zu->%zu)", i, j);
            new (raw(j)) Obj(std::as_const(P[i].o()));
            P[j].live = true;
            P[j].m = P[i].m;
            copies++;
            break;
        case 5:
            if (i == j) break;
            log += fmt(" move(%zu->%zu)", i, j);
            new (raw(j)) Obj(std::move(P[i].o()));
            P[j].live = true;
            P[j].m = P[i].m;
            P[i].m.ready = false;                 // only assignable, initializable, destructible
            copies++;
            break;
        case 6: case 7:
            if (!P[j].live) break;
            log += fmt(" assign(%zu->%zu)", i, j);
            P[j].o() = std::as_const(P[i].o());
            P[j].m = P[i].m;
            copies++;
            break;
        case 8:
            if (!P[j].live || i == j) break;
            log += fmt(" move-assign(%zu->%zu)", i, j);
            P[j].o() = std::move(P[i].o());
            P[j].m = P[i].m;
            P[i].m.ready = false;
            copies++;
            break;
        case 9:
            if (!P[j].live || !P[j].m.ready) break;
            log += fmt(" swap(%zu,%zu)", i, j);
            std::swap(P[i].o(), P[j].o());
            std::swap(P[i].m, P[j].m);
            copies++;
            break;
        case 10: case 11: log += fmt(" result(%zu)", i); c.note("%s", log.c_str()); log.clear(); Tr::result(s, P[i].o(), P[i].m); worked++; break;
        default: log += fmt(" work(%zu)", i); c.note("%s", log.c_str()); log.clear(); Tr::work(s, P[i].o(), P[i].m); worked++; break;
        }
    }
    c.note("%s |", log.c_str());
    for (size_t i = 0; i < N; i++)
        if (P[i].live && P[i].m.ready) { c.note(" result(%zu)", i); Tr::result(s, P[i].o(), P[i].m); Tr::result(s, P[i].o(), P[i].m); }
    c.nontrivial = copies > 0 && worked > 0;
    if (copies) c.label("copied");
}
struct V { const char* name; Need need; void (*f)(Src&, Ctx&); };
#define X(a, n, need) \
    {"hash " #n, need, life<HashT<mp::hash_##n, ref::a, false>>}, {"hash class " #n, need, life<HashT<mp::hash_##n, ref::a, true>>}, \
    {"hmac " #n, need, life<MacT<mp::mac_hmac_##n, Hm<ref::a>, false>>}, {"hmac class " #n, need, life<MacT<mp::mac_hmac_##n, Hm<ref::a>, true>>}, \
    {"hkdf " #n, need, life<KdfT<mp::kdf_hkdf_hmac_##n, ref::a, true, false>>}, {"hkdf class " #n, need, life<KdfT<mp::kdf_hkdf_hmac_##n, ref::a, true, true>>}, \
    {"pbkdf2 " #n, need, life<KdfT<mp::kdf_pbkdf_2_hmac_##n, ref::a, false, false>>}, {"pbkdf2 class " #n, need, life<KdfT<mp::kdf_pbkdf_2_hmac_##n, ref::a, false, true>>},
#define Y(n, need) {#n, need, life<CipherT<mp::n, false>>}, {#n " class", need, life<CipherT<mp::n, true>>},
#define POLY_AEAD \
    {"poly1305", any, life<MacT<mp::mac_poly_1305, Po, false>>}, {"poly1305 class", any, life<MacT<mp::mac_poly_1305, Po, true>>}, \
    {"aead", any, life<AeadT<mp::aead_chacha_20_poly_1305, false>>}, {"aead class", any, life<AeadT<mp::aead_chacha_20_poly_1305, true>>}, \
    {"aead_sw", any, life<AeadT<mp::aead_chacha_20_sw_poly_1305_sw, false>>},
#if PART == 1
#define XS(X) X(sha1, sha_1_160, any) X(sha256, sha_2_256, any) X(sha384, sha_2_384, any)
static const V vs[] = {XS(X) POLY_AEAD};
#elif PART == 2
#define XS(X) X(sha1, sha_1_160_sw, any) X(sha224, sha_2_224, any) X(sha512_224, sha_2_512_224, any) X(sha512_256, sha_2_512_256, any)
static const V vs[] = {XS(X) DRV_CIPHERS(Y)};
#else
#define XS(X) X(sha256, sha_2_256_hw_x86_64_ni, sha) X(sha1, sha_1_160_hw_x86_64_ni, sha) X(sha512, sha_2_512, any) X(sha256, sha_2_256_sw, any)
static const V vs[] = {XS(X)};
#endif
static const size_t nv = sizeof vs / sizeof *vs;
static void run(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    c.note("%s:", v.name);
    if (!have(v.need)) { c.note(" (cpu lacks it)"); return; }
    v.f(s, c);
}
#define NAME2(x) "histories-" #x
#define NAME1(x) NAME2(x)
PBT_TEST(NAME1(PART), run, 250000, 6000000, [](bool t) { return nv * (t ? 200 : 40); }, [](size_t i, bool) { return std::vector<u64>{i % nv}; }, 80000, 2000000,
         "histories of up to 32 operations (construct, initialize, work, result or verify, copy, move, assign, self-assign, swap, destroy; storage poisoned first) over 4 objects, each checked against a model after every output; non-trivial: at least one copy or move and one output");
