// C09: ChaCha20-Poly1305 equals RFC 8439.
#include "../lib/drv.h"
#include "../lib/huge.h"
#include "../lib/huge_expected.h"
using namespace drv;

struct V { const char* name; AeadOut (*run)(Src&, Ctx&, const bytes&, const bytes&, const bytes&, const bytes&, bool); void (*big)(Src&, Ctx&, size_t, u64); };
template<class T> AeadOut run(Src& s, Ctx& c, const bytes& k, const bytes& v, const bytes& ad, const bytes& m, bool dec)
{
    return with_byte(s, [&](auto t) { return aead_once<T, typename decltype(t)::type>(s, c, k, v, ad, m, dec); });
}
// kind 0: huge aad; 1: encryption in pieces of at most a mebibyte; 2: decryption in huge pieces
// (the output region wraps onto one mebibyte, which only decryption, authenticating its input, allows)
template<class T> void big(Src& s, Ctx& c, size_t li, u64 kind)
{
    size_t n = huge::lengths[li];
    std::vector<size_t> cut;
    if (kind == 1) c.note(" pieces of 1 MiB");
    else cut = huge::cuts(s, n);
    c.note(" %s len=%zu pieces=%s", kind == 0 ? "aad" : kind == 1 ? "encrypt" : "decrypt", n, show(cut).c_str());
    if (kind == 1) for (size_t r = n; r; r -= std::min(r, huge::MB)) cut.push_back(std::min(r, huge::MB));
    bytes k = huge::key(), v(12, 0), t(16);
    mp::aead::apie<T> a(k.data(), k.size(), v.data(), v.size());
    size_t pos = 0;
    for (size_t x: cut)
    {
        if (kind == 0) a.aad(huge::in() + pos, x);
        else if (kind == 1) a.encrypt(huge::in() + pos, x, huge::out());
        else a.decrypt(huge::in() + pos, x, huge::out() + pos);
        pos += x;
    }
    a.digest(t.data());
    const u8* w = (const u8*)(kind == 0 ? huge::x_aad : kind == 1 ? huge::x_text : huge::x_dec)[0][li];
    pbt::same("tag-huge", t, bytes(w, w + 16), "tag over a huge input");
}
static const V vs[] = {{"default", run<mp::aead_chacha_20_poly_1305>, big<mp::aead_chacha_20_poly_1305>},
                       {"sw", run<mp::aead_chacha_20_sw_poly_1305_sw>, big<mp::aead_chacha_20_sw_poly_1305_sw>}};

static void check(Src& s, Ctx& c, size_t an, size_t n)
{
    const V& v = vs[s.below(2)];
    bool dec = s.below(2);
    c.note("%s aad=%zu len=%zu %s", v.name, an, n, dec ? "decrypt" : "encrypt");
    bytes k = s.content(32), i = s.content(12), ad = s.content(an), m = s.content(n);
    c.nontrivial = an || n;
    if (an && !n) c.label("aad-only");
    if (!an && n) c.label("text-only");
    auto got = v.run(s, c, k, i, ad, m, dec);
    bytes want = ref::chacha20(k.data(), i.data(), 1, m);
    auto what = fmt("key %s iv %s aad %s text %s", pbt::hex(k).c_str(), pbt::hex(i).c_str(), pbt::hex(ad).c_str(), pbt::hex(m).c_str());
    pbt::same("text", got.text, want, what);
    want_prefix("tag", got.tag, ref::aead_tag(k.data(), i.data(), ad, dec ? m : want), what);
}
static void conf(Src& s, Ctx& c)
{
    size_t an, n;
    if (s.below(2) == 0) an = s.below(1024), n = s.below(1024);
    else an = s.below(4) == 0 ? 0 : s.size(3000, 16), n = s.below(5) == 0 ? 0 : s.size(5000, 64);
    check(s, c, an, n);
}
PBT_TEST("aead", conf, 250000, 6000000,
         [](bool t) { size_t g = t ? 400 : 150; return g * g; },
         [](size_t i, bool t) { size_t g = t ? 400 : 150; return std::vector<u64>{0, i % g, i / g}; },
         120000, 3000000,
         "aad length x text length (grid: all pairs 0..149, thorough 0..399), backend, direction, call form, pieces of both, in-place, byte type, truncation, reuse; non-trivial: aad or text not empty");

static void round_trip(Src& s, Ctx& c)
{
    size_t an = s.size(600, 16), n = s.size(3000, 64);
    const V &v = vs[s.below(2)], &w = vs[s.below(2)];
    c.note("%s -> %s aad=%zu len=%zu", v.name, w.name, an, n);
    c.nontrivial = n > 0;
    bytes k = s.content(32), i = s.content(12), ad = s.content(an), m = s.content(n);
    auto e = v.run(s, c, k, i, ad, m, false);
    auto d = w.run(s, c, k, i, ad, e.text, true);
    pbt::same("round-trip", d.text, m, "decrypt(encrypt(x))");
    size_t z = std::min(e.tag.size(), d.tag.size());
    pbt::same("round-trip-tag", prefix(d.tag, z), prefix(e.tag, z), "tags of both directions");
}
PBT_TEST("round-trip", round_trip, 80000, 1500000, nullptr, nullptr, 0, 0, "encrypting with one backend and pieces, decrypting with another; non-trivial: non-empty text");

static void huge_(Src& s, Ctx& c)
{
    const V& v = vs[s.below(2)];
    size_t li = s.below(4);
    u64 kind = s.below(3);
    c.note("%s", v.name);
    c.nontrivial = true;
    v.big(s, c, li, kind);
}
PBT_TEST("huge", huge_, 0, 0, [](bool t) { return size_t(t ? 48 : 12); },
         [](size_t i, bool t) { return std::vector<u64>{i % 2, t ? i / 6 % 4 : (i / 6 % 2 ? 3 : 1), i / 2 % 3}; }, 0, 0,
         "associated data or text (both directions) above 2^29 and 2^32 bytes, cut into pieces; all non-trivial", 600);

static void wide_(Src& s, Ctx& c)
{
    const V& v = vs[s.below(2)];
    bool dec = s.below(2), text = s.below(2);
    size_t w = wide(s, c), o = s.below(100), an = text ? o : w, n = text ? w : o;
    c.note("%s aad=%zu len=%zu %s", v.name, an, n, dec ? "decrypt" : "encrypt");
    bytes k = s.content(32), i = s.content(12), ad = s.content(an), m = s.content(n);
    c.nontrivial = true;
    auto got = v.run(s, c, k, i, ad, m, dec);
    bytes want = ref::chacha20(k.data(), i.data(), 1, m);
    pbt::same("text", got.text, want, "a wide text");
    want_prefix("tag", got.tag, ref::aead_tag(k.data(), i.data(), ad, dec ? m : want), "tag over wide data");
}
PBT_TEST("wide", wide_, 0, 20000, [](bool t) { return 8 * 3 * wide_count(t); }, [](size_t i, bool) { return std::vector<u64>{i % 2, i / 2 % 2, i / 4 % 2, i / 24}; }, 0, 0,
         "associated data or text next to every power of two from 2^8 to 2^18 (thorough: 2^20) bytes, both directions; all non-trivial");
