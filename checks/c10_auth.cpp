// C10: verification accepts the genuine tag and nothing else.
#include "../lib/auth.h"
#include "../lib/huge.h"
using namespace auth;

struct Case { bytes k, v, ad, ct, tag; };
using Fn = bool (*)(Src&, u64, const bytes&, const bytes&, const bytes&, const bytes&, const bytes&, bytes&);
static const Fn fns[] = {verify<mp::aead_chacha_20_poly_1305>, verify<mp::aead_chacha_20_sw_poly_1305_sw>};

static Case genuine(Src& s, size_t an, size_t n, bytes& m)
{
    Case c{s.content(32), s.content(12), s.content(an), {}, {}};
    m = s.content(n);
    c.ct = ref::chacha20(c.k.data(), c.v.data(), 1, m);
    c.tag = ref::aead_tag(c.k.data(), c.v.data(), c.ad, c.ct);
    return c;
}
static void expect_reject(Src& s, u64 impl, u64 form, const Case& g, const std::string& what)
{
    bytes t;
    if (fns[impl](s, form, g.k, g.v, g.ad, g.ct, g.tag, t))
        pbt::fail("forgery", fmt("%s accepted: %s (aad %zu, ciphertext %zu, tag %zu bytes)", form_name[form], what.c_str(), g.ad.size(), g.ct.size(), g.tag.size()));
}
static bool same(const Case& a, const Case& b) { return a.k == b.k && a.v == b.v && a.ad == b.ad && a.ct == b.ct && a.tag == b.tag; }

static void accept(Src& s, Ctx& c)
{
    u64 form = s.below(forms), impl = s.below(2);
    size_t an, n;
    if (s.below(2) == 0) an = s.below(256), n = s.below(256);
    else an = s.size(600, 16), n = s.size(2000, 64);
    bytes m, t;
    Case g = genuine(s, an, n, m);
    c.note("%s aad=%zu len=%zu", form_name[form], an, n);
    c.nontrivial = true;
    if (!fns[impl](s, form, g.k, g.v, g.ad, g.ct, g.tag, t)) pbt::fail("rejected", fmt("%s rejected a genuine message", form_name[form]));
    pbt::same("plaintext", t, m, "plaintext");
}
PBT_TEST("genuine", accept, 100000, 2000000,
         [](bool t) { size_t k = t ? 70 : 36; return forms * k * k; },
         [](size_t i, bool t) { size_t k = t ? 70 : 36; return std::vector<u64>{i % forms, i / forms % 2, 0, i / forms % k, i / forms / k}; },
         30000, 500000, "a genuine message must be accepted with its plaintext by every verifying form; grid: all small aad and text sizes; all non-trivial");

// all single bit flips
static const size_t shapes[][2] = {{5, 7}, {0, 16}, {16, 0}, {33, 65}};
static size_t bits_of(size_t sh) { return 8 * (32 + 12 + 16 + shapes[sh][0] + shapes[sh][1]); }
static void flip(Src& s, Ctx& c)
{
    u64 form = s.below(forms), impl = s.below(2), sh = s.below(4), bit = s.below(8192);
    bytes m;
    Case g = genuine(s, shapes[sh][0], shapes[sh][1], m);
    bit %= bits_of(sh);
    size_t b = bit / 8;
    const char* where;
    auto at = [&](bytes& x, const char* w) { if (b < x.size()) { x[b] ^= u8(1 << bit % 8); where = w; return true; } b -= x.size(); return false; };
    at(g.k, "key") || at(g.v, "nonce") || at(g.tag, "tag") || at(g.ad, "aad") || at(g.ct, "ciphertext");
    c.note("%s flip %s byte %zu bit %zu (aad %zu, ciphertext %zu)", form_name[form], where, b, size_t(bit % 8), g.ad.size(), g.ct.size());
    // RFC 8439 clamps nothing of the cipher key: every bit counts
    c.nontrivial = true;
    expect_reject(s, impl, form, g, fmt("bit %zu of byte %zu of the %s flipped", size_t(bit % 8), b, where));
}
PBT_TEST("bit-flips", flip, 0, 0,
         [](bool) { size_t n = 0; for (size_t i = 0; i < 4; i++) n += bits_of(i); return n * forms * 2; },
         [](size_t i, bool) {
             u64 f = i % forms, impl = i / forms % 2, b = i / forms / 2, sh = 0;
             while (b >= bits_of(sh)) b -= bits_of(sh++);
             return std::vector<u64>{f, impl, sh, b}; },
         0, 0, "every single bit of key, nonce, tag, aad and ciphertext of four message shapes flipped, through every verifying form and both backends: exhaustive; all non-trivial");

static void forge(Src& s, Ctx& c)
{
    u64 form = s.below(forms), impl = s.below(2);
    size_t an = s.below(3) ? s.below(70) : s.size(400, 16), n = s.below(3) ? s.below(70) : s.size(1500, 64);
    bytes m;
    Case g = genuine(s, an, n, m), f = g;
    size_t muts = 1 + s.below(3);
    std::string what;
    for (size_t i = 0; i < muts; i++)
    {
        bytes* parts[] = {&f.tag, &f.ad, &f.ct, &f.v, &f.k};
        switch (s.below(12))
        {
        case 0: { size_t k = s.below(f.tag.size() + 1); f.tag.resize(k); what += fmt(" tag cut to %zu", k); break; }
        case 1: { bytes x = s.content(1 + s.below(20)); f.tag.insert(f.tag.end(), x.begin(), x.end()); what += fmt(" tag extended by %zu", x.size()); break; }
        case 2: f.tag = s.content(16); what += " random tag"; break;
        case 3: { bytes& x = *parts[s.below(5)]; if (!x.empty()) x[s.below(x.size())] ^= u8(1 + s.below(255)); what += " byte changed"; break; }
        case 4: { size_t k = s.below(f.ad.size() + 1); f.ct.insert(f.ct.begin(), f.ad.end() - k, f.ad.end()); f.ad.resize(f.ad.size() - k); what += fmt(" %zu bytes moved from aad to text", k); break; }
        case 5: { size_t k = s.below(f.ct.size() + 1); f.ad.insert(f.ad.end(), f.ct.begin(), f.ct.begin() + k); f.ct.erase(f.ct.begin(), f.ct.begin() + k); what += fmt(" %zu bytes moved from text to aad", k); break; }
        case 6: { size_t k = s.below(2) ? (16 - f.ad.size() % 16) % 16 : s.below(33); f.ad.resize(f.ad.size() + k); what += fmt(" aad padded by %zu zeros", k); break; }
        case 7: { size_t k = s.below(2) ? (16 - f.ct.size() % 16) % 16 : s.below(33); f.ct.resize(f.ct.size() + k); what += fmt(" text padded by %zu zeros", k); break; }
        case 8: { bytes& x = s.below(2) ? f.ad : f.ct; x.resize(s.below(x.size() + 1)); what += " cut"; break; }
        case 9: { std::swap(f.ad, f.ct); what += " aad and text swapped"; break; }
        case 10: { bytes& x = *parts[s.below(3)]; if (x.size() > 1) { size_t a = s.below(x.size()), b = s.below(x.size()); std::swap(x[a], x[b]); } what += " bytes swapped"; break; }
        default:
        {
            // the difference of all tag bytes together must not cancel
            if (f.tag.size() < 2) break;
            size_t a = s.below(f.tag.size()), b = s.below(f.tag.size());
            u8 x = u8(1 + s.below(255));
            f.tag[a] ^= x;
            f.tag[b] ^= x;
            what += " equal changes to two tag bytes";
        }
        }
    }
    c.note("%s aad=%zu len=%zu:%s", form_name[form], an, n, what.c_str());
    if (same(f, g)) { c.note(" (unchanged)"); return; }
    c.nontrivial = true;
    if (f.tag.size() != 16) c.label("tag-length");
    expect_reject(s, impl, form, f, what);
}
PBT_TEST("forgeries", forge, 400000, 8000000,
         [](bool) { return size_t(forms * 2); }, [](size_t i, bool) { return std::vector<u64>{i % forms, i / forms}; },
         100000, 2000000,
         "one to three modifications of a genuine message: tags cut, emptied, extended, random, with paired changes; bytes changed, moved across the aad/text boundary, zero padded, cut, swapped; non-trivial: something differs");

// tag lengths, exhaustively: every prefix and extension of the right tag
static void lengths(Src& s, Ctx& c)
{
    u64 form = s.below(forms), impl = s.below(2), n = s.below(49);
    bytes m;
    Case g = genuine(s, s.below(40), s.below(80), m);
    bytes tail = s.below(2) ? bytes(32, 0) : s.content(32);
    g.tag.insert(g.tag.end(), tail.begin(), tail.end());
    g.tag.resize(n);
    c.note("%s tag of %zu bytes", form_name[form], size_t(n));
    c.nontrivial = true;
    if (n == 16)
    {
        bytes t;
        if (!fns[impl](s, form, g.k, g.v, g.ad, g.ct, g.tag, t)) pbt::fail("rejected", fmt("%s rejected a genuine message", form_name[form]));
        return;
    }
    expect_reject(s, impl, form, g, fmt("tag of %zu bytes", size_t(n)));
}
PBT_TEST("tag-lengths", lengths, 0, 0,
         [](bool t) { return size_t(forms * 2 * 49 * (t ? 100 : 10)); },
         [](size_t i, bool) { return std::vector<u64>{i % forms, i / forms % 2, i / forms / 2 % 49}; }, 0, 0,
         "every length 0..48 of a tag whose bytes are right as far as they go, every form; all non-trivial");

// one of the parts is large: what is judged must not lose the upper bits of a size
static void wide_(Src& s, Ctx& c)
{
    u64 form = s.below(forms), impl = s.below(2), part = s.below(3);
    size_t w = wide(s, c);
    bytes m, t;
    Case g = genuine(s, part == 1 ? w : s.below(40), part == 2 ? w : s.below(80), m);
    c.note("%s wide %s of %zu bytes", form_name[form], part == 0 ? "tag" : part == 1 ? "aad" : "ciphertext", w);
    c.nontrivial = true;
    if (part == 0)
    {
        bytes tail = s.below(2) ? bytes(w, 0) : s.content(w);
        g.tag.insert(g.tag.end(), tail.begin(), tail.end());
        if (s.below(2)) g.tag.resize(w);
        expect_reject(s, impl, form, g, fmt("tag of %zu bytes", g.tag.size()));
        return;
    }
    if (!fns[impl](s, form, g.k, g.v, g.ad, g.ct, g.tag, t)) pbt::fail("rejected", fmt("%s rejected a genuine message", form_name[form]));
    pbt::same("plaintext", t, m, "plaintext");
    bytes& x = part == 1 ? g.ad : g.ct;
    switch (s.below(3))
    {
    case 0: x[s.below(x.size())] ^= u8(1 + s.below(255)); break;
    case 1: x.resize(x.size() - 1 - s.below(std::min<size_t>(x.size(), 300))); break;
    default: x.insert(x.end(), 1 + s.below(300), 0);
    }
    expect_reject(s, impl, form, g, "a wide part changed");
}
PBT_TEST("wide", wide_, 0, 20000, [](bool t) { return forms * 2 * 3 * wide_count(t); },
         [](size_t i, bool) { return std::vector<u64>{i % forms, i / forms % 2, i / forms / 2 % 3, i / forms / 6}; }, 0, 0,
         "tags extended by, or aad or ciphertext of, sizes next to every power of two from 2^8 to 2^18 (thorough: 2^20): genuine accepted, any change rejected; all non-trivial");

// a tag of 2^32 + 16 bytes that begins with the right one
static void huge_tag(Src& s, Ctx& c)
{
    using T = mp::aead_chacha_20_poly_1305;
    u64 form = s.below(5);
    size_t n = (size_t(1) << 32) + (s.below(2) ? 16 : s.below(17));
    bytes m;
    Case g = genuine(s, s.below(20), 1 + s.below(60), m);
    memcpy(huge::in(), g.tag.data(), 16);
    c.note("form %d tag=%zu", int(form), n);
    c.nontrivial = true;
    std::span<const u8> tag(huge::in(), n);
    error e;
    bytes t(g.ct.size());
    switch (form)
    {
    case 0: { mp::aead::apie<T> a(g.k, g.v); a.aad(g.ad); a.decrypt(g.ct.data(), g.ct.size(), t.data()); a.verify(tag.data(), tag.size(), e); break; }
    case 1: { mp::aead::apie<T> a(g.k, g.v); a.aad(g.ad); a.decrypt(g.ct.data(), g.ct.size(), t.data()); a.verify(tag, e); break; }
    case 2: mp::aead::decrypt<T>(g.k.data(), g.k.size(), g.v.data(), g.v.size(), g.ad.data(), g.ad.size(), g.ct.data(), g.ct.size(), tag.data(), tag.size(), t.data(), e); break;
    case 3: mp::aead::decrypt<T>(g.k, g.v, g.ad, g.ct, tag, t, e); break;
    default: try { t = mp::aead::decrypt<T, bytes>(g.k, g.v, g.ad, g.ct, tag); } catch (const error& x) { e = x; }
    }
    if (!(e == error::aead_verify)) pbt::fail("forgery", fmt("a tag of %zu bytes was accepted (form %d)", n, int(form)));
}
PBT_TEST("huge-tag", huge_tag, 0, 0, [](bool t) { return size_t(t ? 60 : 10); }, [](size_t i, bool) { return std::vector<u64>{i % 5, i / 5 % 2}; }, 0, 0,
         "tags of 2^32 to 2^32+16 bytes beginning with the right one, through every kind of call; all non-trivial");
