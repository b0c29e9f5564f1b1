// C01: messages above 2^29 and 2^32 bytes (the length field and the size counters).
#include "../lib/drv.h"
#include "../lib/huge.h"
#include "../lib/huge_expected.h"
using namespace drv;

struct V { const char* name; ref::Alg alg; Need need; bytes (*run)(const std::vector<size_t>&, bool); };
template<class T> bytes run(const std::vector<size_t>& cut, bool oneshot)
{
    bytes d(T::digest_size);
    const u8* p = huge::in();
    if (oneshot) mp::hash::digest<T>(p, cut[0], d.data());
    else
    {
        mp::hash::apie<T> a;
        size_t pos = 0;
        for (size_t k: cut) a.update(p + pos, k), pos += k;
        a.digest(d.data());
    }
    return d;
}
#define X(a, n, need) {#n, ref::a, need, run<mp::hash_##n>},
static const V vs[] = {DRV_HASHES(X)};
static const size_t nv = sizeof vs / sizeof *vs;

static void big(Src& s, Ctx& c)
{
    const V& v = vs[s.below(nv)];
    size_t li = s.below(huge::nlengths), n = huge::lengths[li];
    auto cut = huge::cuts(s, n);
    bool one = cut.size() == 1 && s.below(2);
    c.note("%s len=%zu pieces=%s%s", v.name, n, show(cut).c_str(), one ? " one-call" : "");
    if (!have(v.need)) return;
    c.nontrivial = true;
    bytes got = v.run(cut, one);
    bytes want((const u8*)huge::x_hash[v.alg][li], (const u8*)huge::x_hash[v.alg][li] + got.size());
    pbt::same("digest-huge", got, want, std::string(v.name) + " of a huge message");
}
PBT_TEST("huge", big, 0, 0,
         [](bool t) { return nv * (t ? 12 : 2); },
         [](size_t i, bool t) { return t ? std::vector<u64>{i % nv, (i / nv) % 4} : std::vector<u64>{i % nv, u64((i / nv) % 2 ? 3 : 1)}; },
         0, 0, "every backend x message sizes around 2^29, 2^31 and above 2^32 bytes, cut into random pieces; all non-trivial", 400);
