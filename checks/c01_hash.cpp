// C01: digests equal FIPS 180-4.
#include "../lib/drv.h"
using namespace drv;

struct V { const char* name; ref::Alg alg; Need need; bytes (*run)(Src&, Ctx&, const bytes&); };
template<class T> bytes run(Src& s, Ctx& c, const bytes& m)
{
    return with_byte(s, [&](auto t) { return hash_once<T, typename decltype(t)::type>(s, c, m); });
}
#define X(a, n, need) {#n, ref::a, need, run<mp::hash_##n>},
static const V vs[] = {DRV_HASHES(X)};
static const size_t nv = sizeof vs / sizeof *vs;

static void conf(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    size_t n = length(s, 9000, ref::block_size(v.alg));
    bytes m = s.content(n);
    c.note("%s len=%zu", v.name, n);
    if (!have(v.need)) { c.note(" (cpu lacks it)"); return; }
    c.nontrivial = n > 0;
    bytes got = v.run(s, c, m);
    want_prefix("digest", got, ref::hash(v.alg, m), std::string(v.name) + " message " + pbt::hex(m));
}
PBT_TEST("hash", conf, 800000, 12000000,
         [](bool t) { return nv * (t ? 1400 : 300); },
         [](size_t i, bool t) { return std::vector<u64>{i % nv, 0, (i / nv) % (t ? 1400 : 300)}; },
         300000, 6000000,
         "algorithm/backend, message (patterns, pseudo-random), call form, byte type, alignment or guard page, splitting and truncation drawn per case; grid: every backend x every length; non-trivial: non-empty message on a supported CPU");

static void wide_(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    size_t n = wide(s, c);
    bytes m = s.content(n);
    c.note("%s len=%zu", v.name, n);
    if (!have(v.need)) return;
    c.nontrivial = true;
    bytes got = v.run(s, c, m);
    want_prefix("digest", got, ref::hash(v.alg, m), fmt("%s of %zu bytes", v.name, n));
}
PBT_TEST("wide", wide_, 0, 20000, [](bool t) { return nv * wide_count(t); }, [](size_t i, bool) { return std::vector<u64>{i % nv, i / nv}; }, 0, 0,
         "messages of 2^8-2 to 2^18+2 bytes (thorough: 2^20), next to every power of two, every backend; all non-trivial");
