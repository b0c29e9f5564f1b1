// C14: every backend of an algorithm, chosen in every way, computes the same function of the history.
// No reference is involved: the same script of calls is run on every variant and the outputs compared.
#include "../lib/script.h"
#if PART == 0
static void pairs(Src& s, Ctx& c)
{
    size_t pick = s.below(64);
    const Fam& f = fams[pick < nf ? pick : pick % 10 < 8 ? pick % 3 : 3 + pick % 3];
    c.note("%s ", f.name);
    Script sc = script(s, f, c);
    bytes first = f.v[0].run(sc);
    for (size_t i = 1; i < f.n; i++)
    {
        if (!have(f.v[i].need)) continue;
        bytes got = f.v[i].run(sc);
        pbt::same("backends-differ", got, first, fmt("%s: outputs of '%s' against those of '%s'", f.name, f.v[i].name, f.v[0].name));
    }
}
PBT_TEST("backends", pairs, 260000, 6000000, [](bool t) { return nf * (t ? 4000 : 700); }, [](size_t i, bool) { return std::vector<u64>{i % nf}; }, 120000, 3000000,
         "a script of calls (initialization, pieces of any size, truncated digests, derivations, copies, assignments, initializing again) run on every backend of one algorithm, preferred or enforced by option, through the interface and the algorithm class, at drawn alignments; non-trivial: some bytes processed");

// one shared key stream: long runs of one backend against another, any steps
static void steps(Src& s, Ctx& c)
{
    const Fam& f = fams[0];
    size_t i = s.below(f.n), j = s.below(f.n), total = s.below(2) ? s.size(6000, 64) : s.size(30000, 256);
    if (!have(f.v[i].need) || !have(f.v[j].need)) return;
    Script a;
    a.apie = s.below(2);
    a.byte = 0, a.in_off = s.below(33), a.out_off = 32 + s.below(33);
    a.ops.push_back(init_op(s, f));
    Script b = a;
    b.in_off = s.below(33);
    bytes m = s.content(total);
    for (Script* p: {&a, &b})
    {
        size_t pos = 0;
        auto parts = split(s, total, s.below(2) ? 64 : 512);
        c.note(" %s", show(parts).c_str());
        for (size_t k: parts) p->ops.push_back({6, 0, 0, bytes(m.begin() + pos, m.begin() + pos + k), {}, {}}), pos += k;
    }
    c.nontrivial = total > 0 && i != j;
    pbt::same("steps-differ", f.v[i].run(a), f.v[j].run(b), fmt("key stream of '%s' against '%s' advanced by other steps", f.v[i].name, f.v[j].name));
}
PBT_TEST("steps", steps, 60000, 1500000, nullptr, nullptr, 30000, 500000,
         "two backends of the cipher advanced over the same data by different steps; non-trivial: some data, different backends");
#endif
