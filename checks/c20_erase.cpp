// C20: what a destroyed object leaves in its storage does not depend on any secret.
// The same history is run twice in the same storage, with different keys, messages and texts
// (lengths, public inputs and choices equal); after every destruction the storage must be equal.
#include "../lib/drv.h"
#include <memory>
#include <optional>
using namespace drv;

// secrets of the current run
struct Secrets
{
    u64 x;
    void fill(u8* p, size_t n) { for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005u + 1442695040888963407u; p[i] = u8(x >> 56); } }
};
static u8 g_key[512], g_in[8192], g_out[8192 + 64];
static const u8 g_pub[512] = {1, 2, 3, 4, 5, 6, 7, 8, 9};

struct Op { u64 kind, slot, other, a, b; };
enum { CONSTRUCT, DESTROY, COPY, MOVE, ASSIGN, MOVE_ASSIGN, SELF, INIT, FEED, FEED2, FINISH, KINDS };
struct Plan { std::vector<Op> ops; u64 how; bool simple; };
struct Shot { std::vector<bytes> live, dead; };
static const size_t SLOTS = 3;
static const size_t room = 4096;
alignas(64) static u8 g_slot[SLOTS][room];

template<class O> struct is_apie : std::false_type {};
// readiness of an object, tracked the same in both runs
struct State { bool alive = false, ready = false, fin = false, text = false; size_t derived = 0; };

struct HashK
{
    static constexpr bool fresh = true;
    template<class O> static void init(O& o, State& st, u64, Secrets&) { o.initialize(); st = State{true, true}; }
    template<class O> static void feed(O& o, State& st, size_t n, bool, Secrets& x) { if (st.fin) return; x.fill(g_in, n); o.update(g_in, n); }
    template<class O> static void finish(O& o, State& st, size_t n) { if constexpr (requires { o.finalize(); }) { if (!st.fin) o.finalize(); } st.fin = true; o.digest(g_out, n); }
};
struct MacK : HashK
{
    static constexpr bool fresh = false;
    template<class O> static void init(O& o, State& st, u64 a, Secrets& x) { size_t n = keysize ? keysize : a % 300; x.fill(g_key, n); o.initialize(g_key, n); st = State{true, true}; }
    static inline size_t keysize = 0;
};
struct PolyK : MacK
{
    template<class O> static void init(O& o, State& st, u64, Secrets& x) { x.fill(g_key, 32); o.initialize(g_key, 32); st = State{true, true}; }
};
template<class T> struct KdfK
{
    static constexpr bool fresh = false;
    static constexpr bool hkdf = requires(T t) { t.initialize(g_key, size_t(), g_pub, size_t(), g_pub, size_t()); };
    template<class O> static void init(O& o, State& st, u64 a, Secrets& x)
    {
        size_t n = a % 200;
        x.fill(g_key, n);
        if constexpr (hkdf) o.initialize(g_key, n, g_pub, a / 200 % 90, g_pub, a / 999 % 60);
        else o.initialize(g_key, n, g_pub, a / 200 % 90, 1 + a % 3);
        st = State{true, true};
    }
    template<class O> static void feed(O& o, State& st, size_t n, bool, Secrets&)
    {
        n %= 300;
        if (st.derived + n > 255 * 20) return;
        st.derived += n;
        o.derive(g_out, n);
    }
    template<class O> static void finish(O& o, State& st, size_t n) { Secrets z{0}; feed(o, st, n, false, z); }
};
struct CipherK
{
    static constexpr bool fresh = false;
    template<class O> static void init(O& o, State& st, u64 a, Secrets& x) { x.fill(g_key, 32); o.initialize(g_key, 32, g_pub + a % 99, 16); st = State{true, true}; }
    template<class O> static void feed(O& o, State&, size_t n, bool d, Secrets& x) { x.fill(g_in, n); if (d) o.decrypt(g_in, n, g_out); else o.encrypt(g_in, n, g_out); }
    template<class O> static void finish(O& o, State& st, size_t n) { Secrets z{5}; feed(o, st, n, false, z); }
};
struct AeadK
{
    static constexpr bool fresh = false;
    template<class O> static void init(O& o, State& st, u64 a, Secrets& x) { x.fill(g_key, 32); o.initialize(g_key, 32, g_pub + a % 99, 12); st = State{true, true}; }
    template<class O> static void feed(O& o, State& st, size_t n, bool d, Secrets& x)
    {
        if (st.fin) return;
        x.fill(g_in, n);
        if (!st.text && n % 3 == 0) { o.aad(g_in, n); return; }
        st.text = true;
        if (d) o.decrypt(g_in, n, g_out); else o.encrypt(g_in, n, g_out);
    }
    template<class O> static void finish(O& o, State& st, size_t n) { if constexpr (requires { o.finalize(); }) { if (!st.fin) o.finalize(); } st.fin = true; o.digest(g_out, n); }
};

template<class O> static void snapshot(std::vector<bytes>& v, const void* p)
{
    __asm__ volatile("" : : "r"(p) : "memory");
    v.emplace_back((const u8*)p, (const u8*)p + sizeof(O));
}

// a pool of objects
template<class O, class K, bool fresh> static Shot pool(const Plan& pl, Secrets x)
{
    static_assert(sizeof(O) <= room);
    Shot r;
    State st[SLOTS];
    O* o[SLOTS];
    for (size_t i = 0; i < SLOTS; i++) { memset(g_slot[i], 0xA7, room); o[i] = (O*)g_slot[i]; }
    auto destroy = [&](size_t i) {
        snapshot<O>(r.live, o[i]);
        if (pl.how % 2) o[i]->~O(); else std::destroy_at(o[i]);
        st[i] = State{};
        snapshot<O>(r.dead, o[i]);
    };
    for (const Op& p: pl.ops)
    {
        size_t i = p.slot, j = p.other;
        State &a = st[i], &b = st[j];
        if (p.kind == CONSTRUCT || (!a.alive && p.kind != COPY && p.kind != MOVE && p.kind != DESTROY))
        {
            if (!a.alive) { new (o[i]) O(); a = State{true, fresh}; }
            if (p.kind == CONSTRUCT) continue;
        }
        switch (p.kind)
        {
        case DESTROY: if (a.alive) destroy(i); break;
        case COPY: if (!a.alive && b.alive) { new (o[i]) O(*o[j]); a = b; } break;
        case MOVE: if (!a.alive && b.alive) { new (o[i]) O(std::move(*o[j])); a = b; b.ready = false; } break;
        case ASSIGN: if (b.alive) { *o[i] = *o[j]; a = b; } break;
        case MOVE_ASSIGN: if (b.alive && i != j) { *o[i] = std::move(*o[j]); a = b; b.ready = false; } break;
        case SELF: { O* volatile self = o[i]; *o[i] = *self; break; }
        case INIT: K::init(*o[i], a, p.a, x); break;
        case FEED: case FEED2:
            if (!a.ready) K::init(*o[i], a, p.a, x);
            K::feed(*o[i], a, p.a, p.kind == FEED2, x);
            break;
        case FINISH: if (a.ready) K::finish(*o[i], a, p.b); break;
        }
    }
    for (size_t i = 0; i < SLOTS; i++) if (st[i].alive) destroy(i);
    return r;
}
// life and death in one function, where a compiler sees that nothing reads the storage again
template<class O, class K, bool fresh> static Shot scope(const Plan& pl, Secrets x)
{
    Shot r;
    State st{true, fresh};
    auto use = [&](O& o) {
        if (!fresh || pl.ops[0].a % 2) K::init(o, st, pl.ops[0].b, x);
        st.ready = true;
        for (const Op& p: pl.ops)
        {
            if (p.kind == FINISH) K::finish(o, st, p.b);
            else K::feed(o, st, p.a, p.kind % 2, x);
        }
    };
    switch (pl.how)
    {
    case 0:
    {
        memset(g_slot[0], 0xA7, sizeof(O));
        O* o = new (g_slot[0]) O();
        use(*o);
        o->~O();
        snapshot<O>(r.dead, g_slot[0]);
        break;
    }
    case 1:
    {
        alignas(O) u8 here[sizeof(O)];
        memset(here, 0xA7, sizeof here);
        { O* o = new (here) O(); use(*o); std::destroy_at(o); }
        snapshot<O>(r.dead, here);
        break;
    }
    case 2:
    {
        auto* p = new (g_slot[0]) std::optional<O>;
        memset(g_slot[0], 0xA7, sizeof(O));
        p = new (g_slot[0]) std::optional<O>;
        p->emplace();
        use(**p);
        p->reset();
        snapshot<O>(r.dead, g_slot[0]);
        break;
    }
    case 3:
    {
        memset(g_slot[0], 0xA7, sizeof(O));
        struct D { void operator()(O* q) const { q->~O(); } };
        { std::unique_ptr<O, D> p(new (g_slot[0]) O()); use(*p); }
        snapshot<O>(r.dead, g_slot[0]);
        break;
    }
    default:
    {
        // an element of a larger object
        struct Holder { u64 a = 1; O o; u64 b = 2; };
        alignas(64) static u8 st2[sizeof(Holder)];
        memset(st2, 0xA7, sizeof st2);
        Holder* h = new (st2) Holder();
        use(h->o);
        h->~Holder();
        snapshot<Holder>(r.dead, st2);
    }
    }
    return r;
}
template<class O, class K, bool fresh> static Shot go(const Plan& pl, Secrets x)
{
    return pl.simple ? scope<O, K, fresh>(pl, x) : pool<O, K, fresh>(pl, x);
}
struct V { const char* name; Need need; Shot (*apie)(const Plan&, Secrets); Shot (*plain)(const Plan&, Secrets); };
std::vector<V> variants_1(), variants_2(), variants_3(), variants_4();

#if PART == 1
#define X(a, n, need) {"hash " #n, need, go<mp::hash::apie<mp::hash_##n>, HashK, true>, go<mp::hash_##n, HashK, false>},
std::vector<V> variants_1() { return {DRV_HASHES(X)}; }
#elif PART == 2
#define X(a, n, need) {"hmac " #n, need, go<mp::mac::apie<mp::mac_hmac_##n>, MacK, false>, go<mp::mac_hmac_##n, MacK, false>},
std::vector<V> variants_2() { return {DRV_HASHES(X)
    {"poly", any, go<mp::mac::apie<mp::mac_poly_1305>, PolyK, false>, go<mp::mac_poly_1305, PolyK, false>},
    {"poly sw", any, go<mp::mac::apie<mp::mac_poly_1305_sw>, PolyK, false>, go<mp::mac_poly_1305_sw, PolyK, false>}}; }
#elif PART == 3
#define Y(a, n, need) {"hkdf " #n, need, go<mp::kdf::apie<mp::kdf_hkdf_hmac_##n>, KdfK<mp::kdf_hkdf_hmac_##n>, false>, go<mp::kdf_hkdf_hmac_##n, KdfK<mp::kdf_hkdf_hmac_##n>, false>},
std::vector<V> variants_3() { return {DRV_HASHES(Y)}; }
#elif PART == 4
#define X(n, need) {#n, need, go<mp::cipher::apie<mp::n>, CipherK, false>, go<mp::n, CipherK, false>},
#define Y(a, n, need) {"pbkdf2 " #n, need, go<mp::kdf::apie<mp::kdf_pbkdf_2_hmac_##n>, KdfK<mp::kdf_pbkdf_2_hmac_##n>, false>, go<mp::kdf_pbkdf_2_hmac_##n, KdfK<mp::kdf_pbkdf_2_hmac_##n>, false>},
std::vector<V> variants_4() { return {DRV_HASHES(Y) DRV_CIPHERS(X)
    {"aead", any, go<mp::aead::apie<mp::aead_chacha_20_poly_1305>, AeadK, false>, go<mp::aead_chacha_20_poly_1305, AeadK, false>},
    {"aead sw", any, go<mp::aead::apie<mp::aead_chacha_20_sw_poly_1305_sw>, AeadK, false>, go<mp::aead_chacha_20_sw_poly_1305_sw, AeadK, false>}}; }
#else
static const std::vector<V>& all()
{
    static const std::vector<V> v = [] {
        auto r = variants_1();
        for (auto f: {variants_2, variants_3, variants_4}) { auto x = f(); r.insert(r.end(), x.begin(), x.end()); }
        return r;
    }();
    return v;
}
static void erased(Src& s, Ctx& c)
{
    const V& v = all()[s.below(all().size())];
    bool plain = s.below(2);
    Plan pl;
    pl.simple = s.below(2) == 0;
    pl.how = s.below(pl.simple ? 5 : 2);
    size_t n = 1 + s.below(pl.simple ? 5 : 24);
    static const char* names[] = {"construct", "destroy", "copy", "move", "assign", "move-assign", "self-assign", "init", "feed", "feed2", "finish"};
    c.note("%s %s %s how=%d:", v.name, plain ? "class" : "apie", pl.simple ? "scope" : "pool", int(pl.how));
    for (size_t i = 0; i < n; i++)
    {
        Op o;
        if (pl.simple) o.kind = s.below(3) == 2 ? FINISH : FEED + s.below(2);
        else { static const u8 w[] = {FEED, FEED, FEED2, INIT, FINISH, CONSTRUCT, COPY, MOVE, ASSIGN, MOVE_ASSIGN, SELF, DESTROY}; o.kind = w[s.below(sizeof w)]; }
        o.slot = s.below(SLOTS);
        o.other = s.below(SLOTS);
        o.a = s.below(3) == 0 ? s.below(4000) : s.size(400, 64);
        o.b = s.below(70);
        if (c.want_desc) c.note(" %s(%d,%d,%d,%d)", names[o.kind], int(o.slot), int(o.other), int(o.a), int(o.b));
        pl.ops.push_back(o);
    }
    if (!have(v.need)) { c.note(" (cpu lacks it)"); return; }
    auto f = plain ? v.plain : v.apie;
    memset(g_out, 0, sizeof g_out);
    Shot a = f(pl, Secrets{1});
    memset(g_out, 0, sizeof g_out);
    Shot b = f(pl, Secrets{2});
    if (a.dead.size() != b.dead.size()) pbt::fail("harness", "the two runs took different ways");
    for (size_t i = 0; i < a.live.size(); i++)
        if (a.live[i] != b.live[i]) { c.nontrivial = true; c.label("secret-while-alive"); break; }
    if (pl.simple) c.nontrivial = true, c.label("scope");
    for (size_t i = 0; i < a.dead.size(); i++)
        if (a.dead[i] != b.dead[i])
        {
            size_t k = 0, cnt = 0;
            while (a.dead[i][k] == b.dead[i][k]) k++;
            for (size_t q = 0; q < a.dead[i].size(); q++) cnt += a.dead[i][q] != b.dead[i][q];
            pbt::fail("left-over", fmt("storage of a destroyed object depends on the secrets: %zu of %zu bytes differ between two runs, from byte %zu (%s / %s)", cnt, a.dead[i].size(), k,
                                       pbt::hex(a.dead[i].data() + k, std::min<size_t>(16, a.dead[i].size() - k)).c_str(), pbt::hex(b.dead[i].data() + k, std::min<size_t>(16, a.dead[i].size() - k)).c_str()));
        }
}
PBT_TEST("erased", erased, 500000, 8000000, nullptr, nullptr, 0, 0,
         "a history of one object or of a pool of objects (construction, copies, moves, assignments, initializing again, feeding, finishing, destruction in several ways), run twice with different secrets; non-trivial: the storage depended on the secrets before destruction (pool), or something was fed (scope)");
#endif
