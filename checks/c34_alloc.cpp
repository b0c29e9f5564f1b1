// C34: memory is taken through the output container alone, and when that fails the exception
// arrives, nothing leaks, and the call can be repeated as if it had not been made.
#include "../lib/drv.h"
#include <milo/error.h>
#include <new>
#include <optional>
using namespace drv;

// ---- faults: allocations and container growth inside a zone are counted, and the k-th fails
namespace fault
{
    inline bool zone, fired;
    inline long left, events;
    inline size_t lost;                 // allocated in a zone, not freed
    inline void* held[64];
    struct Boom { int id; };

    inline void event()
    {
        events++;
        if (left > 0 && --left == 0) { fired = true; throw std::bad_alloc(); }
    }
    inline void growth()
    {
        if (!zone) return;
        events++;
        if (left > 0 && --left == 0) { fired = true; throw Boom{42}; }
    }
    inline void keep(void* p)
    {
        lost++;
        for (auto& h: held) if (!h) { h = p; return; }
    }
    inline void drop(void* p)
    {
        if (lost) for (auto& h: held) if (h == p) { h = nullptr; lost--; return; }
    }
}
#if PART == 1
extern "C" void* __real_malloc(size_t);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_realloc(void*, size_t);
extern "C" void __real_free(void*);
// direct uses of malloc by the code under test
extern "C" void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (fault::zone) { fault::events++; fault::keep(p); } return p; }
extern "C" void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (fault::zone) { fault::events++; fault::keep(p); } return p; }
extern "C" void* __wrap_realloc(void* q, size_t n) { void* p = __real_realloc(q, n); if (p != q) fault::drop(q); if (fault::zone) { fault::events++; if (p != q) fault::keep(p); } return p; }
extern "C" void __wrap_free(void* p) { if (p) fault::drop(p); __real_free(p); }
static void* take(size_t n)
{
    if (fault::zone) fault::event();
    void* p = __real_malloc(n ? n : 1);
    if (fault::zone) fault::keep(p);
    return p;
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { if (p) fault::drop(p); __real_free(p); }
void operator delete[](void* p) noexcept { if (p) fault::drop(p); __real_free(p); }
void operator delete(void* p, size_t) noexcept { if (p) fault::drop(p); __real_free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) fault::drop(p); __real_free(p); }
#endif

// the user's resizable container with its own idea of running out of memory
template<class B> struct Tight
{
    using value_type = B;
    B* p = nullptr;
    size_t n = 0, cap = 0;
    Tight() = default;
    explicit Tight(size_t k) { resize(k, B(0x33)); }
    Tight(const Tight& o) { reserve(o.n); for (; n < o.n; n++) p[n] = o.p[n]; }
    Tight(Tight&& o) noexcept: p(o.p), n(o.n), cap(o.cap) { o.p = nullptr; o.n = o.cap = 0; }
    Tight& operator=(Tight o) noexcept { std::swap(p, o.p); std::swap(n, o.n); std::swap(cap, o.cap); return *this; }
    ~Tight() { delete[] p; }
    B* data() noexcept { return p; }
    const B* data() const noexcept { return p; }
    size_t size() const noexcept { return n; }
    void reserve(size_t k)
    {
        if (k <= cap) return;
        fault::growth();
        B* q = new B[k];
        for (size_t i = 0; i < n; i++) q[i] = p[i];
        delete[] p;
        p = q;
        cap = k;
    }
    void resize(size_t k, B v)
    {
        reserve(k);
        for (size_t i = n; i < k; i++) p[i] = v;
        n = k;
    }
};

enum { done, failed, refused };
struct Go
{
    Src& s;
    Ctx& c;
    u8 got[4096];
    milo::error err;
    bool wrong = false;      // the input is wrong
    bool other = false;      // another output of the call may grow

    // runs f once with the k-th acquisition failing (0: none)
    template<class F> int attempt(const char* what, long k, bool may_take, F f)
    {
        using namespace fault;
        left = k;
        events = 0;
        fired = false;
        int r = done;
        err = milo::error();
        try { zone = true; f(); zone = false; }
        catch (const Boom& b) { zone = false; r = b.id == 42 ? failed : 9; }
        catch (const std::bad_alloc&) { zone = false; r = failed; }
        catch (const milo::error& e) { zone = false; r = refused; err = e; }
        catch (...) { zone = false; r = 9; }
        if (r == 9) pbt::fail("exception", fmt("%s threw something of its own", what));
        if (fired && r != failed) pbt::fail("swallowed", fmt("%s hid the failure of its output to grow", what));
        if (!fired && r == failed) pbt::fail("spurious", fmt("%s failed to get memory without need", what));
        if (r == refused && !wrong) pbt::fail("refused", fmt("%s refused right input", what));
        if (!may_take && events) pbt::fail("allocates", fmt("%s takes memory %ld times, with an output that needs none", what, events));
        if (fired) { c.label("failure"); c.nontrivial = true; }
        if (!may_take) { c.label("allocation-free"); c.nontrivial = true; }
        return r;
    }
    // repeats until it is through: the k-th acquisition fails, then the next, then none
    template<class F> int persist(const char* what, F f)
    {
        long k = s.below(4);
        int r;
        for (int i = 0; (r = attempt(what, k, true, f)) == failed; i++) k = i < 2 ? long(s.below(3)) : 0;
        return r;
    }
    void right(const char* what, size_t reported, size_t size, const u8* p, const bytes& want)
    {
        if (wrong) return;
        if (reported != want.size() || size < want.size()) pbt::fail("size", fmt("%s after %s reported %zu of %zu bytes", what, fault::fired ? "a failure" : "none", reported, want.size()));
        pbt::same("contents", bytes(p, p + want.size()), want, fmt("%s repeated after failures", what));
    }
    template<class V, class F> void grow(const char* what, V v, const bytes& want, F call)
    {
        size_t r = 0;
        persist(what, [&] { r = call(v); });
        if (!wrong && v.size() != want.size()) pbt::fail("size", fmt("%s left %zu bytes in its output, expected %zu", what, v.size(), want.size()));
        right(what, r, v.size(), (const u8*)v.data(), want);
    }
    // call(container&): any kind of output
    template<class B, class F> void into(const char* what, const bytes& want, F call)
    {
        size_t before = s.below(3) ? s.below(want.size() + 20) : 0;
        size_t r = 0;
        switch (s.below(6))
        {
        case 0: return grow(what, std::vector<B>(before), want, call);
        case 1: return grow(what, std::string(before, 'q'), want, call);
        case 2: case 3: return grow(what, Tight<B>(before), want, call);
        case 4:
        {
            std::span<B> v((B*)got, want.size());
            other ? void(persist(what, [&] { r = call(v); })) : void(attempt(what, 0, false, [&] { r = call(v); }));
            return right(what, r, v.size(), got, want);
        }
        }
        Own<B> v;
        v.ptr = (B*)got;
        v.len = want.size();
        other ? void(persist(what, [&] { r = call(v); })) : void(attempt(what, 0, false, [&] { r = call(v); }));
        right(what, r, v.size(), got, want);
    }
    // call(): returns its output, which the caller takes over; C++ types drawn
    template<class V, class F> void value1(const char* what, const bytes& want, F call)
    {
        size_t n = 0;
        persist(what, [&] { V v = call(Tag<V>{}); n = v.size(); memcpy(got, v.data(), std::min(n, sizeof got)); });
        right(what, n, n, got, want);
    }
    template<class B, class F> void value(const char* what, const bytes& want, F call)
    {
        switch (s.below(3))
        {
        case 0: return value1<std::vector<B>>(what, want, call);
        case 1: return value1<std::string>(what, want, call);
        default: return value1<Tight<B>>(what, want, call);
        }
    }
    // must take no memory
    template<class F> void plain(const char* what, const bytes& want, F call)
    {
        size_t r = 0;
        attempt(what, 0, false, [&] { r = call(); });
        right(what, r, sizeof got, got, want);
    }
};
static void ended(const char* what)
{
    if (fault::lost) pbt::fail("leak", fmt("%zu pieces of memory taken in %s were not given back", fault::lost, what));
}
#define V(t) typename decltype(t)::type

template<class A, class B> static void digests(Go& g, A& a, const bytes& full)
{
    Src& s = g.s;
    for (size_t i = 0, m = 1 + s.below(3); i < m; i++)
    {
        size_t n = s.below(full.size() + 1);
        bytes part = prefix(full, n);
        switch (s.below(5))
        {
        case 0: g.into<B>("digest(c)", full, [&](auto& v) { return a.digest(v); }); break;
        case 1: g.into<B>("digest(c, n)", part, [&](auto& v) { return a.digest(v, n); }); break;
        case 2: g.plain("digest(p, n)", part, [&] { return a.digest((B*)g.got, n); }); break;
        case 3: g.value<B>("digest<C>(n)", part, [&](auto t) { return a.template digest<V(t)>(n); }); break;
        default: g.plain("digest()", full, [&] { auto v = a.digest(); memcpy(g.got, v.data(), v.size()); return v.size(); });
        }
    }
}
#if PART == 1
template<class T, class B> static void hash_case(Src& s, Ctx& c, ref::Alg g)
{
    Go G{s, c};
    bytes m = s.content(s.size(300, 64)), full = ref::hash(g, m);
    std::span<const u8> ms(m);
    size_t n = s.below(full.size() + 1);
    bytes part = prefix(full, n);
    c.note("%s len=%zu n=%zu", ref::alg_name[g], m.size(), n);
    switch (s.below(6))
    {
    case 0: G.into<B>("hash::digest(m, c)", full, [&](auto& v) { return mp::hash::digest<T>(ms, v); }); break;
    case 1: G.into<B>("hash::digest(m, c, n)", part, [&](auto& v) { return mp::hash::digest<T>(ms, v, n); }); break;
    case 2: G.plain("hash::digest(m, p, n)", part, [&] { return mp::hash::digest<T>(m.data(), m.size(), (B*)G.got, n); }); break;
    case 3: G.value<B>("hash::digest<C>(m, n)", part, [&](auto t) { return mp::hash::digest<T, V(t)>(ms, n); }); break;
    default:
    {
        std::optional<mp::hash::apie<T>> a, b;
        size_t pos = 0;
        G.attempt("constructing, copying", 0, false, [&] { a.emplace(); b.emplace(*a); *a = *b; });
        for (size_t x: split(s, m.size(), 64))
        {
            G.attempt("update", 0, false, [&] { a->update(ms.data() + pos, x); });
            pos += x;
        }
        if (s.below(2)) { G.attempt("copying", 0, false, [&] { *b = *a; }); digests<mp::hash::apie<T>, B>(G, *b, full); }
        digests<mp::hash::apie<T>, B>(G, *a, full);
    }
    }
    ended("the case");
}
static void hash_all(Src& s, Ctx& c)
{
    with_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        switch (s.below(4))
        {
        case 0: return hash_case<mp::hash_sha_2_256, B>(s, c, ref::sha256);
        case 1: return hash_case<mp::hash_sha_1_160, B>(s, c, ref::sha1);
        case 2: return hash_case<mp::hash_sha_2_512, B>(s, c, ref::sha512);
        default: return hash_case<mp::hash_sha_2_384, B>(s, c, ref::sha384);
        }
    });
}
PBT_TEST("hash", hash_all, 1500000, 30000000, nullptr, nullptr, 300000, 6000000,
         "an operation into an output of a drawn kind in which the k-th acquisition of memory (allocation or growth of the user's container) fails, repeated until it succeeds; exceptions, results, leaks and allocations checked; non-trivial: a failure happened, or an allocation-free form ran");
#elif PART == 2
template<class T, class B> static void mac_case(Src& s, Ctx& c, const bytes& k, const bytes& m, const bytes& full)
{
    Go G{s, c};
    std::span<const u8> ks(k), ms(m);
    size_t n = s.below(full.size() + 1);
    bytes part = prefix(full, n);
    switch (s.below(6))
    {
    case 0: G.into<B>("mac::digest(k, m, c)", full, [&](auto& v) { return mp::mac::digest<T>(ks, ms, v); }); break;
    case 1: G.into<B>("mac::digest(k, m, c, n)", part, [&](auto& v) { return mp::mac::digest<T>(ks, ms, v, n); }); break;
    case 2: G.plain("mac::digest(k, m, p, n)", part, [&] { return mp::mac::digest<T>(k.data(), k.size(), m.data(), m.size(), (B*)G.got, n); }); break;
    case 3: G.value<B>("mac::digest<C>(k, m, n)", part, [&](auto t) { return mp::mac::digest<T, V(t)>(ks, ms, n); }); break;
    default:
    {
        std::optional<mp::mac::apie<T>> a, b;
        size_t pos = 0;
        G.attempt("constructing, copying", 0, false, [&] { a.emplace(ks); b.emplace(*a); *a = *b; });
        for (size_t x: split(s, m.size(), 64))
        {
            G.attempt("update", 0, false, [&] { a->update(ms.data() + pos, x); });
            pos += x;
        }
        digests<mp::mac::apie<T>, B>(G, *a, full);
    }
    }
    ended("the case");
}
static void mac_all(Src& s, Ctx& c)
{
    with_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        u64 k = s.below(3);
        bytes m = s.content(s.size(300, 64)), key = s.content(k == 0 ? 32 : s.size(200, 64));
        c.note("mac %d key=%zu len=%zu", int(k), key.size(), m.size());
        switch (k)
        {
        case 0: return mac_case<mp::mac_poly_1305, B>(s, c, key, m, ref::poly1305(key.data(), m));
        case 1: return mac_case<mp::mac_hmac_sha_2_256, B>(s, c, key, m, ref::hmac(ref::sha256, key, m));
        default: return mac_case<mp::mac_hmac_sha_2_512, B>(s, c, key, m, ref::hmac(ref::sha512, key, m));
        }
    });
}
PBT_TEST("mac", mac_all, 1500000, 30000000, nullptr, nullptr, 300000, 6000000, "the same for HMAC and Poly1305");
template<class T, class B, class... In> static void kdf_case(Src& s, Ctx& c, const bytes& stream, In... in)
{
    Go G{s, c};
    size_t room = stream.size(), n = s.below(room + 1);
    bytes part = prefix(stream, n);
    switch (s.below(4))
    {
    case 0: G.into<B>("kdf::derive(.., c, n)", part, [&](auto& v) { return mp::kdf::derive<T>(in..., v, n); }); break;
    case 1: G.value<B>("kdf::derive<C>(.., n)", part, [&](auto t) { return mp::kdf::derive<T, V(t)>(in..., n); }); break;
    default:
    {
        std::optional<mp::kdf::apie<T>> a, b;
        G.attempt("constructing, copying", 0, false, [&] { a.emplace(in...); b.emplace(*a); *a = *b; });
        size_t pos = 0;
        for (size_t i = 0, m = 1 + s.below(4); i < m; i++)
        {
            n = s.below(room - pos + 1);
            part = bytes(stream.begin() + pos, stream.begin() + pos + n);
            pos += n;
            switch (s.below(3))
            {
            case 0: G.plain("derive(p, n)", part, [&] { return a->derive((B*)G.got, n); }); break;
            case 1: G.value<B>("derive<C>(n)", part, [&](auto t) { return a->template derive<V(t)>(n); }); break;
            default: G.into<B>("derive(c, n)", part, [&](auto& v) { return a->derive(v, n); });
            }
        }
    }
    }
    ended("the case");
}
static void kdf_all(Src& s, Ctx& c)
{
    with_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        bytes i = s.content(s.below(80)), sa = s.content(s.below(80)), inf = s.content(s.below(40));
        std::span<const u8> is(i), ss(sa), fs(inf);
        size_t len = s.size(300, 32);
        u64 k = s.below(3);
        c.note("kdf %d up to %zu", int(k), len);
        switch (k)
        {
        case 0: return kdf_case<mp::kdf_hkdf_hmac_sha_2_256, B>(s, c, ref::hkdf(ref::sha256, i, sa, inf, len), is, ss, fs);
        case 1: return kdf_case<mp::kdf_hkdf_hmac_sha_2_512, B>(s, c, ref::hkdf(ref::sha512, i, sa, inf, len), is, ss, fs);
        default: return kdf_case<mp::kdf_pbkdf_2_hmac_sha_2_256, B>(s, c, ref::pbkdf2(ref::sha256, i, sa, 2, len), is, ss, size_t(2));
        }
    });
}
PBT_TEST("kdf", kdf_all, 1000000, 20000000, nullptr, nullptr, 200000, 4000000, "the same for key derivation: a failed derivation does not advance");
#elif PART == 3
template<class T, class B> static void cipher_case(Src& s, Ctx& c)
{
    Go G{s, c};
    bytes k = s.content(32), v = s.content(16), m = s.content(s.size(300, 64));
    u32 ctr = v[0] | v[1] << 8 | v[2] << 16 | u32(v[3]) << 24;
    bytes full = ref::chacha20(k.data(), v.data() + 4, ctr, m);
    std::span<const u8> ks(k), vs(v), ms(m);
    bool enc = s.below(2);
    c.note("chacha20 len=%zu", m.size());
    switch (s.below(5))
    {
    case 0:
        if (enc) G.into<B>("cipher::encrypt(.., c)", full, [&](auto& o) { return mp::cipher::encrypt<T>(ks, vs, ms, o); });
        else G.into<B>("cipher::decrypt(.., c)", full, [&](auto& o) { return mp::cipher::decrypt<T>(ks, vs, ms, o); });
        break;
    case 1:
        if (enc) G.value<B>("cipher::encrypt<C>", full, [&](auto t) { return mp::cipher::encrypt<T, V(t)>(ks, vs, ms); });
        else G.value<B>("cipher::decrypt<C>", full, [&](auto t) { return mp::cipher::decrypt<T, V(t)>(ks, vs, ms); });
        break;
    case 2: G.plain("cipher::encrypt(.., p)", full, [&] { return mp::cipher::encrypt<T>(k.data(), k.size(), v.data(), v.size(), m.data(), m.size(), (B*)G.got); }); break;
    default:
    {
        std::optional<mp::cipher::apie<T>> a, b;
        G.attempt("constructing, copying", 0, false, [&] { a.emplace(ks, vs); b.emplace(*a); *a = *b; });
        size_t pos = 0;
        for (size_t x: split(s, m.size(), 64))
        {
            bytes part(full.begin() + pos, full.begin() + pos + x);
            std::span<const u8> in(m.data() + pos, x);
            pos += x;
            if (s.below(3) == 0)
            {
                if (enc) G.value<B>("encrypt<C>(m)", part, [&](auto t) { return a->template encrypt<V(t)>(in); });
                else G.value<B>("decrypt<C>(m)", part, [&](auto t) { return a->template decrypt<V(t)>(in); });
            }
            else if (enc) G.into<B>("encrypt(m, c)", part, [&](auto& o) { return a->encrypt(in, o); });
            else G.into<B>("decrypt(m, c)", part, [&](auto& o) { return a->decrypt(in, o); });
        }
    }
    }
    ended("the case");
}
template<class T, class B> static void aead_case(Src& s, Ctx& c)
{
    Go G{s, c};
    bytes k = s.content(32), v = s.content(12), ad = s.content(s.below(40)), m = s.content(s.size(300, 64));
    bytes ct = ref::chacha20(k.data(), v.data(), 1, m), tag = ref::aead_tag(k.data(), v.data(), ad, ct), dtag = ref::aead_tag(k.data(), v.data(), ad, m);
    std::span<const u8> ks(k), vs(v), as(ad), ms(m), ts(dtag);
    size_t r0 = 0;
    u64 form = s.below(9);
    bool forged = form >= 3 && form < 7 && s.below(4) == 0;
    if (forged) dtag[s.below(16)] ^= 1 << s.below(8);
    milo::error e;
    c.note("aead %d aad=%zu len=%zu%s", int(form), ad.size(), m.size(), forged ? " forged" : "");
    auto settled = [&](milo::error have) {
        if (forged != (have == milo::error::aead_verify)) pbt::fail("verdict", "after failures the verdict on the tag is wrong");
    };
    switch (form)
    {
    case 0:
    {
        std::array<B, 16> t;
        G.into<B>("aead::encrypt(.., c, tag)", ct, [&](auto& o) { return mp::aead::encrypt<T>(ks, vs, as, ms, o, t).item_0; });
        pbt::same("contents", bytes(t.begin(), t.end()), tag, "tag");
        break;
    }
    case 1:
    {
        Tight<B> o(s.below(30));
        G.other = true;
        G.into<B>("aead::encrypt(.., text, c)", tag, [&](auto& t) { auto r = mp::aead::encrypt<T>(ks, vs, as, ms, o, t); r0 = r.item_0; return r.item_1; });
        if (r0 != m.size() || o.size() != m.size()) pbt::fail("size", "the text size is not the message size");
        pbt::same("contents", bytes((u8*)o.data(), (u8*)o.data() + o.size()), ct, "text");
        break;
    }
    case 2:
    {
        bytes both = ct;
        both.insert(both.end(), tag.begin(), tag.end());
        G.value1<Tight<B>>("aead::encrypt<C>", both, [&](auto t) {
            using W = V(t);
            auto r = mp::aead::encrypt<T, W>(ks, vs, as, ms);
            W& o = r.item_0;
            W all(0);
            all.resize(o.size() + r.item_1.size(), B());
            memcpy(all.data(), o.data(), o.size());
            memcpy(all.data() + o.size(), r.item_1.data(), r.item_1.size());
            return all;
        });
        break;
    }
    case 3: case 4:
        G.wrong = forged;
        G.into<B>("aead::decrypt(.., c)", ct, [&](auto& o) { return mp::aead::decrypt<T>(ks, vs, as, ms, ts, o); });
        settled(G.err);
        break;
    case 5:
        G.wrong = forged;
        G.value<B>("aead::decrypt<C>", ct, [&](auto t) { return mp::aead::decrypt<T, V(t)>(ks, vs, as, ms, ts); });
        settled(G.err);
        break;
    case 6:
    {
        G.wrong = forged;
        G.into<B>("aead::decrypt(.., c, e)", ct, [&](auto& o) { return mp::aead::decrypt<T>(ks, vs, as, ms, ts, o, e); });
        settled(e);
        break;
    }
    default:
    {
        std::optional<mp::aead::apie<T>> a, b;
        G.attempt("constructing, copying", 0, false, [&] { a.emplace(ks, vs); b.emplace(*a); *a = *b; });
        G.attempt("aad", 0, false, [&] { a->aad(as); });
        bool enc = s.below(2);
        size_t pos = 0;
        for (size_t x: split(s, m.size(), 64))
        {
            bytes part(ct.begin() + pos, ct.begin() + pos + x);
            std::span<const u8> in(m.data() + pos, x);
            pos += x;
            if (s.below(3) == 0)
            {
                if (enc) G.value<B>("encrypt<C>(m)", part, [&](auto t) { return a->template encrypt<V(t)>(in); });
                else G.value<B>("decrypt<C>(m)", part, [&](auto t) { return a->template decrypt<V(t)>(in); });
            }
            else if (enc) G.into<B>("encrypt(m, c)", part, [&](auto& o) { return a->encrypt(in, o); });
            else G.into<B>("decrypt(m, c)", part, [&](auto& o) { return a->decrypt(in, o); });
        }
        if (s.below(2)) digests<mp::aead::apie<T>, B>(G, *a, enc ? tag : dtag);
        const bytes& t = enc ? tag : dtag;
        G.attempt("verify", 0, false, [&] { a->verify(t.data(), 16, e); });
        if (e) pbt::fail("verdict", "the right tag is refused");
    }
    }
    ended("the case");
}
static void text_all(Src& s, Ctx& c)
{
    with_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        if (s.below(3) == 0) cipher_case<mp::cipher_chacha_20, B>(s, c);
        else aead_case<mp::aead_chacha_20_poly_1305, B>(s, c);
    });
}
PBT_TEST("text", text_all, 1500000, 30000000, nullptr, nullptr, 300000, 6000000, "the same for cipher and AEAD, right and forged: a failed call does not advance the keystream or the tag");
template<class T, class B> static void codec_case(Src& s, Ctx& c, bool b64)
{
    using A = mp::codec::apie<T>;
    Go G{s, c};
    bytes m = s.content(s.size(200, 3));
    std::string ts = b64 ? ref::base64(m) : ref::base16(m);
    bytes text(ts.begin(), ts.end());
    std::span<const u8> ms(m), xs(text);
    u64 form = s.below(10);
    bool bad = form >= 4 && !text.empty() && s.below(4) == 0;
    if (bad) text[s.below(text.size())] = "!-_ \n%~"[s.below(7)];
    auto wanted = b64 ? milo::error::codec_base_64_decode : milo::error::codec_base_16_decode;
    milo::error e;
    c.note("base-%d form %d len=%zu%s", b64 ? 64 : 16, int(form), m.size(), bad ? " bad" : "");
    auto settled = [&](milo::error have) { if (bad != (have == wanted)) pbt::fail("verdict", "after failures the verdict on the text is wrong"); };
    G.wrong = bad;
    switch (form)
    {
    case 0: G.into<B>("encode(m, c)", text, [&](auto& o) { return A::encode(ms, o); }); break;
    case 1: G.into<B>("codec::encode(m, c)", text, [&](auto& o) { return mp::codec::encode<T>(ms, o); }); break;
    case 2: G.value<B>("encode<C>(m)", text, [&](auto t) { return A::template encode<V(t)>(ms); }); break;
    case 3: G.value<B>("codec::encode<C>(m)", text, [&](auto t) { return mp::codec::encode<T, V(t)>(ms); }); break;
    case 4: G.into<B>("decode(t, c)", m, [&](auto& o) { return A::decode(xs, o); }); settled(G.err); break;
    case 5: G.into<B>("codec::decode(t, c)", m, [&](auto& o) { return mp::codec::decode<T>(xs, o); }); settled(G.err); break;
    case 6: G.into<B>("decode(t, c, e)", m, [&](auto& o) { return A::decode(xs, o, e); }); settled(e); break;
    case 7: G.into<B>("codec::decode(t, c, e)", m, [&](auto& o) { return mp::codec::decode<T>(xs, o, e); }); settled(e); break;
    case 8: G.value<B>("decode<C>(t)", m, [&](auto t) { return A::template decode<V(t)>(xs); }); settled(G.err); break;
    default: G.value<B>("codec::decode<C>(t)", m, [&](auto t) { return mp::codec::decode<T, V(t)>(xs); }); settled(G.err);
    }
    ended("the case");
}
static void codec_all(Src& s, Ctx& c)
{
    with_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        if (s.below(2)) codec_case<mp::codec_base_64, B>(s, c, true);
        else codec_case<mp::codec_base_16, B>(s, c, false);
    });
}
PBT_TEST("codec", codec_all, 1500000, 30000000, nullptr, nullptr, 300000, 6000000, "the same for encoding and decoding, right and malformed texts");
#endif
