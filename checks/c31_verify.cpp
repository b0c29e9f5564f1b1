// C31: how a wrong tag is wrong does not show in the instructions that reject it.
#include "../lib/drv.h"
#include "../lib/trace.h"
using namespace drv;
using milo::error;

// comparisons of the C library end at the first difference here, so that using one shows
extern "C" __attribute__((noinline, optimize("no-tree-loop-distribute-patterns"))) int memcmp(const void* a, const void* b, size_t n) noexcept
{
    auto x = (const volatile u8*)a, y = (const volatile u8*)b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
extern "C" int bcmp(const void* a, const void* b, size_t n) noexcept { return memcmp(a, b, n); }

enum { FORMS = 10 };
static const char* const names[FORMS] = {"verify(ptr,error)", "verify(ptr)", "verify(container,error)", "verify(container)",
    "decrypt(ptr,error)", "decrypt(ptr)", "decrypt(container&,error)", "decrypt(container&)", "decrypt<>(error)", "decrypt<>()"};
struct Case { bytes k, v, ad, ct; size_t cut; u64 form; };
template<class B> static std::span<const B> as(const bytes& x) { return {(const B*)x.data(), x.size()}; }

// one rejection, with its instructions in l; the tag always lies in the same place
template<class T, class B> static void run(const Case& c, const bytes& tag, trace::Log* l)
{
    static u8 tagbuf[128], text[4096];
    memcpy(tagbuf, tag.data(), tag.size());
    const B *k = (const B*)c.k.data(), *v = (const B*)c.v.data(), *ad = (const B*)c.ad.data(), *ct = (const B*)c.ct.data(), *t = (const B*)tagbuf;
    std::span<const B> ts(t, tag.size());
    size_t tn = tag.size(), n = c.ct.size();
    error e;
    volatile bool caught = false;
    auto traced = [&](auto f) {
        auto g = [&] { try { f(); } catch (const error& x) { e = x; caught = true; } catch (...) { caught = true; } };
        if (l) trace::record(*l, g); else g();
    };
    if (c.form < 4)
    {
        mp::aead::apie<T> a(k, c.k.size(), v, c.v.size());
        a.aad(ad, c.cut);
        a.aad(ad + c.cut, c.ad.size() - c.cut);
        a.decrypt(ct, n, (B*)text);
        switch (c.form)
        {
        case 0: traced([&] { a.verify(t, tn, e); }); break;
        case 1: traced([&] { a.verify(t, tn); }); break;
        case 2: traced([&] { a.verify(ts, e); }); break;
        case 3: traced([&] { a.verify(ts); }); break;
        }
    }
    else switch (c.form)
    {
    case 4: traced([&] { mp::aead::decrypt<T>(k, c.k.size(), v, c.v.size(), ad, c.ad.size(), ct, n, t, tn, (B*)text, e); }); break;
    case 5: traced([&] { mp::aead::decrypt<T>(k, c.k.size(), v, c.v.size(), ad, c.ad.size(), ct, n, t, tn, (B*)text); }); break;
    case 6: { std::span<B> o((B*)text, n); traced([&] { mp::aead::decrypt<T>(as<B>(c.k), as<B>(c.v), as<B>(c.ad), as<B>(c.ct), ts, o, e); }); break; }
    case 7: { std::vector<B> o; traced([&] { mp::aead::decrypt<T>(as<B>(c.k), as<B>(c.v), as<B>(c.ad), as<B>(c.ct), ts, o); }); break; }
    case 8: traced([&] { (void)mp::aead::decrypt<T, std::vector<B>>(as<B>(c.k), as<B>(c.v), as<B>(c.ad), as<B>(c.ct), ts, e); }); break;
    default: traced([&] { (void)mp::aead::decrypt<T, std::vector<B>>(as<B>(c.k), as<B>(c.v), as<B>(c.ad), as<B>(c.ct), ts); }); break;
    }
}
using Fn = void (*)(const Case&, const bytes&, trace::Log*);
static const Fn fns[] = {
    run<mp::aead_chacha_20_poly_1305, u8>, run<mp::aead_chacha_20_poly_1305, char>, run<mp::aead_chacha_20_poly_1305, signed char>,
    run<mp::aead_chacha_20_sw_poly_1305_sw, u8>, run<mp::aead_chacha_20_sw_poly_1305_sw, char>, run<mp::aead_chacha_20_sw_poly_1305_sw, signed char>};

static bytes wrong(Src& s, const bytes& right, size_t n, std::string& d)
{
    bytes t = right;
    bytes tail = s.content(n > 16 ? n - 16 : 0);
    t.resize(std::min<size_t>(n, 16));
    t.insert(t.end(), tail.begin(), tail.end());
    u64 k = s.below(6);
    size_t m = std::min<size_t>(n, 16);
    auto at = [&](size_t i, u8 x) { if (i < t.size()) t[i] ^= x; };
    switch (k)
    {
    case 0: { size_t i = s.below(m ? m : 1); at(i, u8(1 + s.below(255))); d += fmt("byte %zu", i); break; }
    case 1: for (auto& x: t) x = ~x; d += "every bit"; break;
    case 2: { size_t i = s.below(m ? m : 1); for (size_t j = i; j < m; j++) at(j, u8(1 + s.below(255))); d += fmt("from byte %zu", i); break; }
    case 3: { size_t i = s.below(m ? m : 1); for (size_t j = 0; j <= i; j++) at(j, u8(1 + s.below(255))); d += fmt("up to byte %zu", i); break; }
    case 4: { auto x = s.content(n); for (size_t i = 0; i < n; i++) t[i] = x[i]; d += "arbitrary"; break; }
    default: { size_t c = 1 + s.below(4); d += "bits"; while (c--) { size_t b = s.below(8 * (m ? m : 1)); at(b / 8, u8(1 << b % 8)); d += fmt(" %zu", b); } }
    }
    return t;
}
static trace::Log g_a, g_b, g_c;
static void verify(Src& s, Ctx& c)
{
    Case k;
    k.form = s.below(FORMS);
    size_t impl = s.below(6);
    size_t n = s.below(4) ? 16 : s.below(41);
    k.k = s.content(32);
    k.v = s.content(12);
    k.ad = s.content(s.below(40));
    k.cut = s.below(k.ad.size() + 1);
    k.ct = s.content(k.form < 4 ? s.below(100) : s.below(70));
    bytes right = ref::aead_tag(k.k.data(), k.v.data(), k.ad, k.ct);
    std::string da, db;
    bytes a = wrong(s, right, n, da), b = wrong(s, right, n, db);
    c.note("%s impl=%zu aad=%zu len=%zu tag of %zu bytes, wrong in: %s / %s", names[k.form], impl, k.ad.size(), k.ct.size(), n, da.c_str(), db.c_str());
    if (a == right || b == right || a == b) { c.note(" (no pair)"); return; }
    Fn f = fns[impl];
    // first calls settle addresses and one-time initialization
    f(k, a, nullptr);
    f(k, a, &g_a);
    f(k, b, &g_b);
    c.nontrivial = g_a.n > 20;
    c.label(n == 16 ? "tag-16" : "other-size");
    if (g_a == g_b) return;
    f(k, a, &g_c);
    if (!(g_a == g_c)) { c.label("unsettled"); return; }
    pbt::fail("tag-dependent-path", fmt("%s: rejecting two wrong tags of %zu bytes takes different instructions: ", names[k.form], n) + trace::difference(g_a, g_b));
}
PBT_TEST("wrong-tags", verify, 1500, 100000,
         [](bool t) { return size_t(FORMS * 6 * (t ? 200 : 8)); },
         [](size_t i, bool) { return std::vector<u64>{i % FORMS, i / FORMS % 6, 1, 0}; }, 0, 0,
         "two wrong tags of equal size (one byte, some bits, from or up to a byte, all bits, arbitrary) for the same message, single-stepped through every verifying call of the interface on both backend selections and all byte types; non-trivial: an instruction sequence was recorded");
