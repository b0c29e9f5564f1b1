// Scripts of calls run on any backend of an algorithm, on objects placed anywhere.
// Included by several parts: PART 1..4 define the variants, PART 0 the generator of scripts.
#pragma once
#include "drv.h"
#include <milo/option.h>
#include <optional>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/mac/poly.h>
using namespace drv;
namespace o = milo::option;
namespace d = milo::primitive::detail;

struct Op { int kind; size_t a, b; bytes x, y, z; };
struct Script
{
    std::vector<Op> ops;
    bool apie;              // through the interface class, or the algorithm class itself
    size_t byte;            // byte type
    size_t in_off, out_off; // alignment
    // where objects live: 0 as compiled; else in watched storage holding `fill` before
    u8 place = 0, fill = 0;
    bool shared = false;    // inputs are used where they are, as several threads do
};
using Runner = bytes (*)(const Script&);
struct Var { const char* name; Need need; Runner run; };

// an object in storage which ends (place 1) or starts (place 2) at an inaccessible page
template<class A> struct Holder
{
    static constexpr size_t page = 4096, cap = (sizeof(A) + page - 1) / page * page;
    alignas(A) u8 local[sizeof(A)];
    A* a;
    static u8* slot(size_t i)
    {
        static u8* m[3];
        if (!m[i])
        {
            u8* b = (u8*)mmap(nullptr, cap + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (b == MAP_FAILED || mprotect(b + page, cap, PROT_READ | PROT_WRITE)) { perror("mmap"); _exit(99); }
            m[i] = b + page;
        }
        return m[i];
    }
    u8* store = nullptr;
    template<class... X> Holder(const Script& s, size_t i, X&&... x)
    {
        auto make = [&](u8* p) {
            if constexpr (sizeof...(X)) a = new (p) A(std::forward<X>(x)...);
            else a = new (p) A;
        };
        if (!s.place) { make(local); return; }
        store = slot(i);
        memset(store, s.fill, cap);
        fill = s.fill;
        at = s.place == 1 ? cap - sizeof(A) : 0;
        make(store + at);
    }
    ~Holder()
    {
        a->~A();
        if (!store) return;
        for (size_t k = 0; k < cap; k++)
            if ((k < at || k >= at + sizeof(A)) && store[k] != fill) outside = true;
    }
    static inline bool outside = false;
    operator A&() { return *a; }
    size_t at = 0;
    u8 fill = 0;
};
template<class A> static void none_outside() { if (Holder<A>::outside) { Holder<A>::outside = false; pbt::fail("outside-object", "bytes next to an object were written"); } }

struct Buf                      // watched output, input at a drawn alignment
{
    bytes in, out;
    size_t io, oo;
    const u8* src;
    Buf(const Script& s, const bytes& d, size_t n) : in(s.shared ? 0 : d.size() + 64), out(n + 128, 0xA5), io(s.in_off), oo(s.out_off)
    {
        src = s.shared ? d.data() : in.data() + io;
        if (s.shared) return;
        if (!d.empty()) memcpy(in.data() + io, d.data(), d.size());
    }
    template<class B> const B* i() { return (const B*)src; }
    template<class B> B* o() { return (B*)(out.data() + oo); }
    void take(bytes& r, size_t n, size_t cap)
    {
        r.insert(r.end(), out.begin() + oo, out.begin() + oo + n);
        for (size_t k = 0; k < out.size(); k++)
            if ((k < oo || k >= oo + cap) && out[k] != 0xA5) pbt::fail("outside-write", "bytes around the output were written");
    }
};
template<class F> static auto by_byte(const Script& s, F f)
{
    return s.byte == 0 ? f(Tag<unsigned char>{}) : s.byte == 1 ? f(Tag<char>{}) : f(Tag<signed char>{});
}

// kinds: 0 initialize, 1 update(x), 2 digest(a), 3 copy, 4 copy assignment to another object, 5 aad(x), 6 encrypt(x), 7 decrypt(x), 8 derive(a)
template<class A, class B, class Init> static bytes absorb(const Script& s, Init init, bool plain)
{
    bytes r;
    Holder<A> h(s, 0);
    A& a = h;
    bool done = false;
    for (auto& op: s.ops)
    {
        none_outside<A>();
        Buf b(s, op.x, op.a);
        switch (op.kind)
        {
        case 0: init(a, op); done = false; break;
        case 1: a.update(b.template i<B>(), op.x.size()); break;
        case 2:
        {
            if constexpr (requires { a.finalize(); }) if (!done) a.finalize();
            done = true;
            size_t n = a.digest(b.template o<B>(), op.a);
            r.push_back(u8(n));
            b.take(r, n, op.a);
            break;
        }
        case 3: { Holder<A> c(s, 1, a); a = *c.a; break; }
        case 4: { Holder<A> c(s, 1); *c.a = a; Holder<A> e(s, 2, std::move(*c.a)); a = *e.a; break; }
        }
    }
    return r;
}
template<class T> static bytes run_hash(const Script& s)
{
    return by_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        auto init = [](auto& a, const Op&) { a.initialize(); };
        return s.apie ? absorb<mp::hash::apie<T>, B>(s, init, false) : absorb<T, B>(s, init, true);
    });
}
template<class T> static bytes run_mac(const Script& s)
{
    return by_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        auto init = [](auto& a, const Op& op) { a.initialize((const B*)op.y.data(), op.y.size()); };
        return s.apie ? absorb<mp::mac::apie<T>, B>(s, init, false) : absorb<T, B>(s, init, true);
    });
}
template<class A, class B, class Init> static bytes produce(const Script& s, Init init)
{
    bytes r;
    Holder<A> h(s, 0);
    A& a = h;
    for (auto& op: s.ops)
    {
        none_outside<A>();
        Buf b(s, op.x, op.kind == 8 ? op.a : op.x.size());
        switch (op.kind)
        {
        case 0: init(a, op); break;
        case 3: { Holder<A> c(s, 1, a); a = *c.a; break; }
        case 4: { Holder<A> c(s, 1); *c.a = a; Holder<A> e(s, 2, std::move(*c.a)); a = *e.a; break; }
        case 6: case 7:
            if constexpr (requires { a.encrypt(b.template i<B>(), size_t(), b.template o<B>()); })
            {
                size_t n = op.kind == 6 ? a.encrypt(b.template i<B>(), op.x.size(), b.template o<B>()) : a.decrypt(b.template i<B>(), op.x.size(), b.template o<B>());
                if (n != op.x.size()) pbt::fail("stream-size", "size");
                b.take(r, n, n);
            }
            break;
        case 8:
            if constexpr (requires { a.derive(b.template o<B>(), size_t()); })
            {
                size_t n = a.derive(b.template o<B>(), op.a);
                if (n != op.a) pbt::fail("derive-size", "size");
                b.take(r, n, n);
            }
            break;
        }
    }
    return r;
}
template<class T> static bytes run_cipher(const Script& s)
{
    return by_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        auto init = [](auto& a, const Op& op) { a.initialize((const B*)op.y.data(), op.y.size(), (const B*)op.z.data(), op.z.size()); };
        return s.apie ? produce<mp::cipher::apie<T>, B>(s, init) : produce<T, B>(s, init);
    });
}
template<class T> static bytes run_hkdf(const Script& s)
{
    return by_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        auto init = [](auto& a, const Op& op) { a.initialize((const B*)op.x.data(), op.x.size(), (const B*)op.y.data(), op.y.size(), (const B*)op.z.data(), op.z.size()); };
        return s.apie ? produce<mp::kdf::apie<T>, B>(s, init) : produce<T, B>(s, init);
    });
}
template<class T> static bytes run_pbkdf(const Script& s)
{
    return by_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        auto init = [](auto& a, const Op& op) { a.initialize((const B*)op.x.data(), op.x.size(), (const B*)op.y.data(), op.y.size(), op.a); };
        return s.apie ? produce<mp::kdf::apie<T>, B>(s, init) : produce<T, B>(s, init);
    });
}
template<class T> static bytes run_aead(const Script& s)
{
    return by_byte(s, [&](auto t) {
        using B = typename decltype(t)::type;
        auto go = [&](auto tag) {
            using A = typename decltype(tag)::type;
            bytes r;
            Holder<A> h(s, 0);
            A& a = h;
            bool over = false, done = false;
            for (auto& op: s.ops)
            {
                none_outside<A>();
                Buf b(s, op.x, op.kind == 2 ? op.a : op.x.size());
                switch (op.kind)
                {
                case 0: a.initialize((const B*)op.y.data(), op.y.size(), (const B*)op.z.data(), op.z.size()); over = done = false; break;
                case 3: { Holder<A> c(s, 1, a); a = *c.a; break; }
                case 4: { Holder<A> c(s, 1); *c.a = a; Holder<A> e(s, 2, std::move(*c.a)); a = *e.a; break; }
                case 5: a.aad(b.template i<B>(), op.x.size()); break;
                case 6: case 7:
                {
                    if constexpr (requires { a.aadover(); }) if (!over) a.aadover();
                    over = true;
                    size_t n = op.kind == 6 ? a.encrypt(b.template i<B>(), op.x.size(), b.template o<B>()) : a.decrypt(b.template i<B>(), op.x.size(), b.template o<B>());
                    if (n != op.x.size()) pbt::fail("stream-size", "size");
                    b.take(r, n, n);
                    break;
                }
                case 2:
                {
                    if constexpr (requires { a.finalize(); })
                    {
                        if (!over) a.aadover();
                        over = true;
                        if (!done) a.finalize();
                        done = true;
                    }
                    size_t n = a.digest(b.template o<B>(), op.a);
                    r.push_back(u8(n));
                    b.take(r, n, op.a);
                }
                }
            }
            return r;
        };
        return s.apie ? go(Tag<mp::aead::apie<T>>{}) : go(Tag<T>{});
    });
}

struct Fam { const char* name; int type; const Var* v; size_t n; size_t block; };
#define F(name, type, arr, block) {name, type, arr, sizeof arr / sizeof *arr, block}
std::vector<Fam> fams_1(), fams_2(), fams_3(), fams_4();
#if PART
// ---- the variants ---------------------------------------------------------------------------
#define FAM_NI(fam, run, wrap, alg, sw, ni) \
    static const Var fam[] = { \
        {"default", any, run<wrap<mp::hash::alg<>>>}, \
        {"sw preferred", any, run<wrap<mp::hash::alg<o::impl_runtime<d::sw>>>>}, {"sw enforced", any, run<wrap<mp::hash::alg<o::impl_enforce<d::sw>>>>}, \
        {"ni preferred", sha, run<wrap<mp::hash::alg<o::impl_runtime<d::ni>>>>}, {"ni enforced", sha, run<wrap<mp::hash::alg<o::impl_enforce<d::ni>>>>}, \
        {"sw enforced over ni", any, run<wrap<mp::hash::alg<o::impl_runtime<d::ni>, o::impl_enforce<d::sw>>>>}, \
        {"cpltime", any, run<wrap<mp::hash::alg<o::impl_cpltime<d::sw>>>>}};
#define FAM_SW(fam, run, wrap, alg, sw) \
    static const Var fam[] = { \
        {"default", any, run<wrap<mp::hash::alg<>>>}, \
        {"sw preferred", any, run<wrap<mp::hash::alg<o::impl_runtime<d::sw>>>>}, {"sw enforced", any, run<wrap<mp::hash::alg<o::impl_enforce<d::sw>>>>}};
#define ALGS(P, run, wrap) \
    FAM_NI(P##sha1, run, wrap, sha_1_160, hash_sha_1_160_impl_sw, hash_sha_1_160_impl_hw_x86_64_ni) \
    FAM_NI(P##sha224, run, wrap, sha_2_224, hash_sha_2_256_impl_sw, hash_sha_2_256_impl_hw_x86_64_ni) \
    FAM_NI(P##sha256, run, wrap, sha_2_256, hash_sha_2_256_impl_sw, hash_sha_2_256_impl_hw_x86_64_ni) \
    FAM_SW(P##sha384, run, wrap, sha_2_384, hash_sha_2_512_impl_sw) \
    FAM_SW(P##sha512, run, wrap, sha_2_512, hash_sha_2_512_impl_sw) \
    FAM_SW(P##sha512_224, run, wrap, sha_2_512_224, hash_sha_2_512_impl_sw) \
    FAM_SW(P##sha512_256, run, wrap, sha_2_512_256, hash_sha_2_512_impl_sw)
template<class H> using self = H;
template<class H> using hm = mp::mac::hmac<H>;
template<class H> using hk = mp::kdf::hkdf<hm<H>>;
template<class H> using pb = mp::kdf::pbkdf_2<hm<H>>;
#if PART == 1
static const Var v_poly[] = {
    {"default", any, run_mac<mp::mac::poly_1305<>>},
    {"sw preferred", any, run_mac<mp::mac::poly_1305<o::impl_runtime<d::mac_poly_1305_impl_sw>>>},
    {"sw enforced", any, run_mac<mp::mac::poly_1305<o::impl_enforce<d::mac_poly_1305_impl_sw>>>}};
using csw = d::cipher_chacha_impl_sw_ietf;
using cs3 = d::cipher_chacha_impl_hw_x86_64_ssse_3_ietf;
using ca2 = d::cipher_chacha_impl_hw_x86_64_avx_2_ietf;
template<class... O> using ch = mp::cipher::chacha_20<O...>;
static const Var v_chacha[] = {
    {"default", any, run_cipher<ch<>>}, {"sw preferred", any, run_cipher<ch<o::impl_runtime<csw>>>}, {"sw enforced", any, run_cipher<ch<o::impl_enforce<csw>>>},
    {"ssse3 preferred", ssse3, run_cipher<ch<o::impl_runtime<cs3>>>}, {"ssse3 enforced", ssse3, run_cipher<ch<o::impl_enforce<cs3>>>},
    {"avx2 preferred", avx2, run_cipher<ch<o::impl_runtime<ca2>>>}, {"avx2 enforced", avx2, run_cipher<ch<o::impl_enforce<ca2>>>},
    {"ssse3 enforced over avx2", ssse3, run_cipher<ch<o::impl_enforce<cs3>, o::impl_runtime<ca2>>>}};
using psw = mp::mac::poly_1305<o::impl_enforce<d::mac_poly_1305_impl_sw>>;
using pdf = mp::mac::poly_1305<>;
template<class C, class P> using ae = d::aead_chacha_20_poly_1305<C, P>;
static const Var v_aead[] = {
    {"default", any, run_aead<mp::aead::chacha_20_poly_1305<>>},
    {"sw+sw", any, run_aead<ae<ch<o::impl_enforce<csw>>, psw>>}, {"ssse3+sw", ssse3, run_aead<ae<ch<o::impl_enforce<cs3>>, psw>>},
    {"avx2+sw", avx2, run_aead<ae<ch<o::impl_enforce<ca2>>, psw>>}, {"sw+default", any, run_aead<ae<ch<o::impl_runtime<csw>>, pdf>>},
    {"ssse3+default", ssse3, run_aead<ae<ch<o::impl_runtime<cs3>>, pdf>>}, {"avx2+default", avx2, run_aead<ae<ch<o::impl_runtime<ca2>>, pdf>>}};

std::vector<Fam> fams_1() { return {F("chacha20", 2, v_chacha, 64), F("aead", 3, v_aead, 64), F("poly1305", 1, v_poly, 16)}; }
#elif PART == 2
ALGS(h_, run_hash, self)
ALGS(m_, run_mac, hm)
std::vector<Fam> fams_2() { return {F("sha1", 0, h_sha1, 64), F("sha224", 0, h_sha224, 64), F("sha256", 0, h_sha256, 64), F("sha384", 0, h_sha384, 128), F("sha512", 0, h_sha512, 128), F("sha512/224", 0, h_sha512_224, 128), F("sha512/256", 0, h_sha512_256, 128), F("hmac-sha1", 1, m_sha1, 64), F("hmac-sha224", 1, m_sha224, 64), F("hmac-sha256", 1, m_sha256, 64), F("hmac-sha384", 1, m_sha384, 128), F("hmac-sha512", 1, m_sha512, 128), F("hmac-sha512/224", 1, m_sha512_224, 128), F("hmac-sha512/256", 1, m_sha512_256, 128)}; }
#elif PART == 3
ALGS(k_, run_hkdf, hk)
std::vector<Fam> fams_3() { return {F("hkdf-sha1", 4, k_sha1, 64), F("hkdf-sha224", 4, k_sha224, 64), F("hkdf-sha256", 4, k_sha256, 64), F("hkdf-sha384", 4, k_sha384, 128), F("hkdf-sha512", 4, k_sha512, 128), F("hkdf-sha512/224", 4, k_sha512_224, 128), F("hkdf-sha512/256", 4, k_sha512_256, 128)}; }
#else
ALGS(p_, run_pbkdf, pb)
std::vector<Fam> fams_4() { return {F("pbkdf2-sha1", 5, p_sha1, 64), F("pbkdf2-sha224", 5, p_sha224, 64), F("pbkdf2-sha256", 5, p_sha256, 64), F("pbkdf2-sha384", 5, p_sha384, 128), F("pbkdf2-sha512", 5, p_sha512, 128), F("pbkdf2-sha512/224", 5, p_sha512_224, 128), F("pbkdf2-sha512/256", 5, p_sha512_256, 128)}; }
#endif
#else
static std::vector<Fam> all_fams()
{
    std::vector<Fam> r;
    for (auto f: {fams_1, fams_2, fams_3, fams_4}) for (auto& x: f()) r.push_back(x);
    return r;
}
static const std::vector<Fam> fams = all_fams();
static const size_t nf = 31;
static Op init_op(Src& s, const Fam& f)
{
    Op op{0, 0, 0, {}, {}, {}};
    switch (f.type)
    {
    case 1: op.y = s.content(f.block == 16 ? 32 : s.size(300, f.block)); break;
    case 2: op.y = s.content(s.below(4) ? 32 : s.below(33)); op.z = s.content(s.below(4) ? 16 : s.below(17));
        if (op.z.size() == 16 && s.below(3) == 0) { u32 c = 0u - u32(s.below(80)); memcpy(op.z.data(), &c, 4); }
        break;
    case 3: op.y = s.content(32); op.z = s.content(12); break;
    case 4: op.x = s.content(s.size(200, f.block)); op.y = s.content(s.size(200, f.block)); op.z = s.content(s.size(200, f.block)); break;
    case 5: op.x = s.content(s.size(200, f.block)); op.y = s.content(s.size(200, f.block)); op.a = 1 + s.below(4); break;
    }
    return op;
}
static Script script(Src& s, const Fam& f, Ctx& c)
{
    Script r;
    r.apie = s.below(2) == 0;
    r.byte = s.below(3);
    r.in_off = s.below(33);
    r.out_off = 32 + s.below(33);
    size_t n = 2 + s.below(12);
    auto fresh = [&] { r.ops.push_back(init_op(s, f)); };
    fresh();
    int phase = 0;          // aead: 0 aad, 1 text; 2 finished
    size_t bytes_ = 0;
    int dir = 6 + int(s.below(2));
    std::string d;
    for (size_t i = 0; i < n; i++)
    {
        u64 k = s.below(10);
        if (k == 8) { r.ops.push_back({int(3 + s.below(2)), 0, 0, {}, {}, {}}); d += " copy"; continue; }
        if (k == 9 || (phase == 2 && s.below(3) == 0)) { fresh(); phase = 0; d += " init"; dir = 6 + int(s.below(2)); continue; }
        size_t z = s.below(3) ? s.size(f.type == 2 || f.type == 3 ? 2600 : 700, f.block) : s.below(70);
        auto feed = [&](int kind) { r.ops.push_back({kind, 0, 0, s.content(z), {}, {}}); bytes_ += z; d += fmt(" %s%zu", kind == 1 ? "u" : kind == 5 ? "a" : "x", z); };
        auto dig = [&] { size_t m = s.below(70); r.ops.push_back({2, m, 0, {}, {}, {}}); phase = 2; d += fmt(" d%zu", m); };
        switch (f.type)
        {
        case 0: case 1: if (phase == 2 || k == 7) dig(); else feed(1); break;
        case 2: feed(6 + int(s.below(2))); break;
        case 3: if (phase == 2 || k == 7) dig(); else if (phase == 0 && k < 3) feed(5); else { phase = 1; feed(dir); } break;
        default: z %= 200; r.ops.push_back({8, z, 0, {}, {}, {}}); bytes_ += z; d += fmt(" k%zu", z);
        }
    }
    if (f.type == 0 || f.type == 1 || f.type == 3) r.ops.push_back({2, 64, 0, {}, {}, {}});
    c.note("%s%s", r.apie ? "interface" : "class", d.c_str());
    c.nontrivial = bytes_ > 0;
    return r;
}
#endif
