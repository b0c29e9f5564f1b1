// C07: PBKDF2 equals RFC 8018.
#include "../lib/drv.h"
using namespace drv;

struct V { const char* name; ref::Alg alg; Need need; bytes (*run)(Src&, Ctx&, const bytes&, const bytes&, size_t, size_t); };
template<class T> bytes run(Src& s, Ctx& c, const bytes& i, const bytes& sa, size_t it, size_t n)
{
    return with_byte(s, [&](auto t) { return pbkdf_once<T, typename decltype(t)::type>(s, c, i, sa, it, n); });
}
#define X(a, n, need) {#n, ref::a, need, run<mp::kdf_pbkdf_2_hmac_##n>},
static const V vs[] = {DRV_HASHES(X)};
static const size_t nv = sizeof vs / sizeof *vs;

static void check(Src& s, Ctx& c, const V& v, const bytes& i, const bytes& sa, size_t it, size_t n)
{
    c.note("%s password=%zu salt=%zu iterations=%zu n=%zu", v.name, i.size(), sa.size(), it, n);
    if (!have(v.need)) { c.note(" (cpu lacks it)"); return; }
    c.nontrivial = n > 0;
    if (it > 1) c.label("iterated");
    if (n > 255 * ref::digest_size(v.alg)) c.label("above-255-blocks");
    bytes got = v.run(s, c, i, sa, it, n);
    pbt::same("key", got, ref::pbkdf2(v.alg, i, sa, it, n), fmt("pbkdf2 %s password %s salt %s", v.name, pbt::hex(i).c_str(), pbt::hex(sa).c_str()));
}
static void conf(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    size_t ds = ref::digest_size(v.alg), bs = ref::block_size(v.alg);
    size_t n = s.below(2) == 0 ? s.below(400) : s.size(6 * ds, ds);
    size_t it = s.below(3) == 0 ? 1 : s.below(8) ? 1 + s.below(6) : 1 + s.below(600);
    if (n > 2 * ds && it > 60) it = 60;
    check(s, c, v, s.content(s.size(400, bs)), s.content(s.below(5) == 0 ? 0 : s.size(400, bs)), it, n);
}
PBT_TEST("pbkdf2", conf, 100000, 2000000,
         [](bool t) { return nv * (t ? 400 : 200); },
         [](size_t i, bool t) { return std::vector<u64>{i % nv, 0, i / nv % (t ? 400 : 200)}; },
         40000, 800000,
         "backend, password and salt lengths (empty and block edges favoured), iterations 1..600, output length (grid: every small length), call form, byte type, reuse; non-trivial: some output on a supported CPU");

// block indices above one, two (and, thorough, three) bytes
static void blocks(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    size_t ds = ref::digest_size(v.alg);
    static const size_t at[] = {255, 256, 257, 511, 512, 65535, 65536, 65537, 131073};
    size_t k = at[s.below(9)], n = k * ds - s.below(ds);
    check(s, c, v, s.content(s.below(80)), s.content(s.below(80)), k < 600 ? 1 + s.below(3) : 1, n);
}
PBT_TEST("block-index", blocks, 400, 20000,
         [](bool) { return nv * 9; }, [](size_t i, bool) { return std::vector<u64>{i % nv, i / nv}; },
         0, 0, "outputs of 255..257, 511, 512, 65535..65537 and 131073 blocks on every backend; all non-trivial");
static void iterations(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    static const size_t at[] = {255, 256, 257, 1000, 4096, 65535, 65536, 65537};
    check(s, c, v, s.content(s.below(80)), s.content(s.below(80)), at[s.below(8)], 1 + s.below(ref::digest_size(v.alg) + 1));
}
PBT_TEST("iteration-count", iterations, 0, 2000,
         [](bool) { return nv * 8; }, [](size_t i, bool) { return std::vector<u64>{i % nv, i / nv}; },
         0, 0, "iteration counts around 2^8 and 2^16 on every backend; all non-trivial");

static void wide_(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    bool salt = s.below(2);
    size_t w = wide(s, c), o = s.below(100), n = 1 + s.below(2 * ref::digest_size(v.alg));
    check(s, c, v, s.content(salt ? o : w), s.content(salt ? w : o), 1 + s.below(3), n);
}
PBT_TEST("wide", wide_, 0, 20000, [](bool t) { return nv * 2 * wide_count(t); },
         [](size_t i, bool) { return std::vector<u64>{i % nv, i / nv % 2, i / nv / 2}; }, 0, 0,
         "passwords and salts next to every power of two from 2^8 to 2^18 (thorough: 2^20) bytes, every backend; all non-trivial");
