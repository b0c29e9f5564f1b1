// C06: HKDF equals RFC 5869.
#include "../lib/drv.h"
using namespace drv;

struct V { const char* name; ref::Alg alg; Need need; bytes (*run)(Src&, Ctx&, const bytes&, const bytes&, const bytes&, size_t); };
template<class T> bytes run(Src& s, Ctx& c, const bytes& i, const bytes& sa, const bytes& f, size_t n)
{
    return with_byte(s, [&](auto t) { return hkdf_once<T, typename decltype(t)::type>(s, c, i, sa, f, n); });
}
#define X(a, n, need) {#n, ref::a, need, run<mp::kdf_hkdf_hmac_##n>},
static const V vs[] = {DRV_HASHES(X)};
static const size_t nv = sizeof vs / sizeof *vs;

static void conf(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    size_t ds = ref::digest_size(v.alg), bs = ref::block_size(v.alg), n;
    switch (s.below(6))
    {
    case 0: n = s.below(16384); break;                                  // the grid's
    case 1: n = s.below(3 * ds + 2); break;
    case 2: n = s.below(256) * ds + s.below(3); n = n ? n - 1 : 0; break;
    case 3: n = 255 * ds - s.below(ds + 2); break;
    default: n = s.size(255 * ds, ds);
    }
    n = std::min(n, 255 * ds);
    size_t in = s.size(600, bs), sn = s.below(4) == 0 ? 0 : s.size(600, bs), fn = s.below(4) == 0 ? 0 : s.size(600, bs);
    bytes i = s.content(in), sa = s.content(sn), f = s.content(fn);
    c.note("%s ikm=%zu salt=%zu info=%zu n=%zu", v.name, in, sn, fn, n);
    if (n > 254 * ds) c.label("last-block");
    if (!sn) c.label("no-salt");
    if (!have(v.need)) { c.note(" (cpu lacks it)"); return; }
    c.nontrivial = n > 0;
    bytes got = v.run(s, c, i, sa, f, n);
    pbt::same("key", got, ref::hkdf(v.alg, i, sa, f, n), fmt("hkdf %s ikm %s salt %s info %s", v.name, pbt::hex(i).c_str(), pbt::hex(sa).c_str(), pbt::hex(f).c_str()));
}
PBT_TEST("hkdf", conf, 120000, 2500000,
         [](bool t) { return nv * (t ? 1200 : 200); },
         [](size_t i, bool t) { size_t g = t ? 1200 : 200; return std::vector<u64>{i % nv, 0, i / nv % g}; },
         50000, 1000000,
         "backend, ikm/salt/info lengths (empty and block edges favoured), output length 0..255*HashLen (grid: every small length), call form, byte type, reuse and repeated derivation; non-trivial: some output on a supported CPU");
PBT_TEST("hkdf-lengths", conf, 0, 0,
         [](bool t) { return nv * (t ? 255 * 3 : 255); },
         [](size_t i, bool t) {
             const V& v = vs[i % nv];
             size_t k = i / nv, ds = ref::digest_size(v.alg);
             size_t n = t ? (k / 3 + 1) * ds + k % 3 - 1 : (k + 1) * ds;
             return std::vector<u64>{i % nv, 0, std::min<u64>(n, 16383)}; },
         0, 0, "every whole number of blocks 1..255 (thorough: and one byte to either side), all backends");

static void wide_(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    size_t at = s.below(3), n = 1 + s.below(3 * ref::digest_size(v.alg));
    bytes x[3];
    size_t w = wide(s, c);
    for (size_t k = 0; k < 3; k++) x[k] = s.content(k == at ? w : s.below(100));
    c.note("%s ikm=%zu salt=%zu info=%zu n=%zu", v.name, x[0].size(), x[1].size(), x[2].size(), n);
    if (!have(v.need)) return;
    c.nontrivial = true;
    pbt::same("key", v.run(s, c, x[0], x[1], x[2], n), ref::hkdf(v.alg, x[0], x[1], x[2], n), std::string("hkdf ") + v.name);
}
PBT_TEST("wide", wide_, 0, 20000, [](bool t) { return nv * 3 * wide_count(t); },
         [](size_t i, bool) { return std::vector<u64>{i % nv, i / nv % 3, 40, i / nv / 3}; }, 0, 0,
         "ikm, salt or info next to every power of two from 2^8 to 2^18 (thorough: 2^20) bytes, every backend; all non-trivial");
