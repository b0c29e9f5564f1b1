// C13: errors arrive by reference or by exception, consistently.
#include "../lib/drv.h"
#include <milo/error.h>
#include <optional>
using namespace drv;
using milo::error;
using Code = error::code;
static const Code codes[] = {error::none, error::size, error::aead_verify, error::codec_base_64_encode, error::codec_base_64_decode, error::codec_base_16_encode, error::codec_base_16_decode};
static const size_t ncodes = sizeof codes / sizeof *codes;

// ---- histories: one error object used with many operations ---------------------------------
struct Cipher { bytes k, v, ad, ct, tag, pt; bool ok; };
static Cipher gen_aead(Src& s)
{
    Cipher c{s.content(32), s.content(12), s.content(s.below(40)), {}, {}, s.content(s.below(3) ? s.below(70) : s.below(600)), true};
    c.ct = ref::chacha20(c.k.data(), c.v.data(), 1, c.pt);
    c.tag = ref::aead_tag(c.k.data(), c.v.data(), c.ad, c.ct);
    switch (s.below(8))
    {
    case 0: c.tag[s.below(16)] ^= u8(1 << s.below(8)); c.ok = false; break;
    case 1: c.tag.resize(s.below(16)); c.ok = false; break;
    case 2: c.tag.resize(17 + s.below(8)); c.ok = false; break;
    case 3: if (!c.ct.empty()) { c.ct[s.below(c.ct.size())] ^= u8(1 << s.below(8)); c.ok = false; } break;
    default: break;
    }
    return c;
}
struct Result { bool threw = false; Code thrown = error::none; };
template<class F> static Result call(F f)
{
    Result r;
    try { f(); }
    catch (const error& e) { r.threw = true; r.thrown = Code(e); }
    catch (...) { pbt::fail("wrong-exception", "something other than milo::error was thrown"); }
    return r;
}
template<size_t N> struct Fixed : std::array<u8, N> {};

template<class T> static Result aead_op(Src& s, Ctx& c, const Cipher& x, error* e)
{
    bytes out(x.ct.size());
    auto sp = [](const bytes& b) { return std::span<const u8>(b.data(), b.size()); };
    auto obj = [&] (auto f)
    {
        mp::aead::apie<T> a(x.k, x.v);
        a.aad(x.ad);
        a.decrypt(x.ct.data(), x.ct.size(), out.data());
        f(a);
    };
    u64 form = s.below(5);
    c.note(" aead/%d%s%s", int(form), e ? "e" : "t", x.ok ? "+" : "-");
    switch (form)
    {
    case 0: return call([&] { obj([&](auto& a) { if (e) a.verify(x.tag.data(), x.tag.size(), *e); else a.verify(x.tag.data(), x.tag.size()); }); });
    case 1: return call([&] { obj([&](auto& a) { if (e) a.verify(x.tag, *e); else a.verify(x.tag); }); });
    case 2: return call([&] {
        if (e) mp::aead::decrypt<T>(x.k.data(), x.k.size(), x.v.data(), x.v.size(), x.ad.data(), x.ad.size(), x.ct.data(), x.ct.size(), x.tag.data(), x.tag.size(), out.data(), *e);
        else mp::aead::decrypt<T>(x.k.data(), x.k.size(), x.v.data(), x.v.size(), x.ad.data(), x.ad.size(), x.ct.data(), x.ct.size(), x.tag.data(), x.tag.size(), out.data()); });
    case 3: return call([&] {
        std::span<u8> o(out.data(), out.size());
        if (s.below(2))
        {
            if (e) mp::aead::decrypt<T>(x.k, x.v, x.ad, x.ct, x.tag, o, *e); else mp::aead::decrypt<T>(x.k, x.v, x.ad, x.ct, x.tag, o);
        }
        else
        {
            if (e) mp::aead::decrypt<T>(x.k, x.v, x.ad, x.ct, x.tag, out, *e); else mp::aead::decrypt<T>(x.k, x.v, x.ad, x.ct, x.tag, out);
        } });
    default: return call([&] {
        if (e) out = mp::aead::decrypt<T, bytes>(sp(x.k), sp(x.v), sp(x.ad), sp(x.ct), sp(x.tag), *e);
        else out = mp::aead::decrypt<T, bytes>(sp(x.k), sp(x.v), sp(x.ad), sp(x.ct), sp(x.tag)); });
    }
}
template<class T> static Result codec_op(Src& s, Ctx& c, const bytes& t, error* e, bool want)
{
    u64 form = s.below(7);
    bytes out(t.size() + 8);
    std::span<const u8> in(t.data(), t.size());
    c.note(" codec/%d%s%s", int(form), e ? "e" : "t", want ? "+" : "-");
    switch (form)
    {
    case 0: return call([&] { if (e) mp::codec::decode<T>(t.data(), t.size(), out.data(), *e); else mp::codec::decode<T>(t.data(), t.size(), out.data()); });
    case 1: return call([&] { if (e) mp::codec::decode<T>(in, out, *e); else mp::codec::decode<T>(in, out); });
    case 2: return call([&] { std::span<u8> o(out.data(), out.size()); if (e) mp::codec::decode<T>(in, o, *e); else mp::codec::decode<T>(in, o); });
    case 3: return call([&] { std::string o; if (e) mp::codec::apie<T>::decode(t, o, *e); else mp::codec::apie<T>::decode(t, o); });
    case 4: return call([&] { if (e) mp::codec::apie<T>::decode(t.data(), t.size(), out.data(), *e); else mp::codec::apie<T>::decode(t.data(), t.size(), out.data()); });
    case 5: return call([&] { std::array<u8, 400> o; if (e) mp::codec::decode<T>(in, o, *e); else mp::codec::decode<T>(in, o); });
    default: return call([&] { if (e) T::decode(t.data(), t.size(), out.data(), *e); else { auto o = mp::codec::decode<T, bytes>(in); } });
    }
}
static void corrupt(Src& s, std::string& t, bool& ok, bool b64)
{
    ok = true;
    if (t.empty() || s.below(2) == 0) return;
    static const char bad[] = "!-_ \n\0\x80\xff=g";
    size_t at = s.below(t.size());
    char x = bad[s.below(sizeof bad - 1)];
    if (b64 && x == 'g') x = '~';
    if (b64 && x == '=') { t.pop_back(); ok = t.empty(); return; }    // not a whole group any more
    t[at] = x;
    ok = false;
}
static void history(Src& s, Ctx& c)
{
    error e = codes[s.below(ncodes)];
    size_t n = 1 + s.below(6);
    size_t failures = 0;
    for (size_t i = 0; i < n; i++)
    {
        bool by_ref = s.below(2) == 0, ok;
        if (s.below(5) == 0) e = codes[s.below(ncodes)];
        Code before = Code(e), code;
        Result r;
        error* p = by_ref ? &e : nullptr;
        switch (s.below(4))
        {
        case 0: { auto x = gen_aead(s); ok = x.ok; code = error::aead_verify; r = aead_op<mp::aead_chacha_20_poly_1305>(s, c, x, p); break; }
        case 1: { auto x = gen_aead(s); ok = x.ok; code = error::aead_verify; r = aead_op<mp::aead_chacha_20_sw_poly_1305_sw>(s, c, x, p); break; }
        case 2: { std::string t = ref::base16(s.content(s.below(60))); if (!t.empty() && s.below(3) == 0) t.erase(0, 1); corrupt(s, t, ok, false); code = error::codec_base_16_decode; r = codec_op<mp::codec_base_16>(s, c, bytes(t.begin(), t.end()), p, ok); break; }
        default: { std::string t = ref::base64(s.content(s.below(60))); corrupt(s, t, ok, true); code = error::codec_base_64_decode; r = codec_op<mp::codec_base_64>(s, c, bytes(t.begin(), t.end()), p, ok); }
        }
        failures += !ok;
        if (by_ref)
        {
            if (r.threw) pbt::fail("threw", "an operation given an error argument threw");
            Code now = Code(e);
            if (ok && now != error::none) pbt::fail("not-cleared", fmt("a successful operation left the error %d (it was %d before)", int(now), int(before)));
            if (!ok && now != code) pbt::fail("wrong-code", fmt("a failure was reported as %d, expected %d (the error was %d before)", int(now), int(code), int(before)));
            if (bool(e) != !ok || (e == code) != !ok || (e == error::none) != ok) pbt::fail("inconsistent", "the error's conversions disagree");
        }
        else
        {
            if (r.threw == ok) pbt::fail(ok ? "threw" : "not-thrown", ok ? "a successful operation threw" : "a failure was not thrown");
            if (r.threw && r.thrown != code) pbt::fail("wrong-code", fmt("a failure was thrown as %d, expected %d", int(r.thrown), int(code)));
        }
    }
    c.nontrivial = true;
    if (failures && failures < n) c.label("mixed");
}
PBT_TEST("histories", history, 300000, 6000000, nullptr, nullptr, 120000, 2000000,
         "histories of decodings and verifications, each valid or invalid, each through a drawn call form with the shared error object (which keeps whatever the previous step left in it) or by exception; all non-trivial");

// ---- the same failing or succeeding call in both styles must agree --------------------------
template<class F> static void both_styles(Src& s, F f)
{
    error e = codes[s.below(ncodes)];
    Result a = call([&] { f(&e); }), b = call([&] { f(nullptr); });
    if (a.threw) pbt::fail("threw", "an operation given an error argument threw");
    if (bool(e) != b.threw) pbt::fail("disagree", fmt("by reference: error %d; without: %s", int(Code(e)), b.threw ? "thrown" : "nothing thrown"));
    if (b.threw && !(e == b.thrown)) pbt::fail("disagree", fmt("by reference: error %d; thrown: %d", int(Code(e)), int(b.thrown)));
}
template<class T> static void text_styles(Src& s, const bytes& t)
{
    std::span<const u8> in(t.data(), t.size());
    bytes out(t.size() + 8);
    both_styles(s, [&](error* e) { if (e) mp::codec::decode<T>(t.data(), t.size(), out.data(), *e); else mp::codec::decode<T>(t.data(), t.size(), out.data()); });
    both_styles(s, [&](error* e) { if (e) mp::codec::decode<T>(in, out, *e); else mp::codec::decode<T>(in, out); });
    both_styles(s, [&](error* e) { if (e) mp::codec::apie<T>::decode(in, out, *e); else mp::codec::apie<T>::decode(in, out); });
    both_styles(s, [&](error* e) { if (e) mp::codec::apie<T>::decode(t.data(), t.size(), out.data(), *e); else mp::codec::apie<T>::decode(t.data(), t.size(), out.data()); });
    both_styles(s, [&](error* e) { if (e) T::decode(t.data(), t.size(), out.data(), *e); else mp::codec::decode<T, std::string>(in); });
}
static void texts(Src& s, Ctx& c)
{
    // any bytes at all: no model, only agreement of the styles
    size_t n = s.below(40);
    bytes t(n);
    static const char al[] = "0123456789abcdefABCDEFGxyz+/==== -\0\x80\xff";
    u64 style = s.below(3);
    for (auto& x: t) x = style == 0 ? u8(s.below(256)) : style == 1 ? u8(al[s.below(sizeof al - 1)]) : u8(al[s.below(16)]);
    if (n && s.below(3) == 0) t[n - 1] = '=';
    if (n > 1 && s.below(3) == 0) t[n - 2] = '=';
    c.note("%s", pbt::hex(t, 40).c_str());
    c.nontrivial = n > 0;
    text_styles<mp::codec_base_16>(s, t);
    text_styles<mp::codec_base_64>(s, t);
}
PBT_TEST("styles", texts, 150000, 3000000, nullptr, nullptr, 60000, 1000000,
         "any text, decoded by ten pairs of forms with and without an error argument: both must report the same; non-trivial: non-empty text");

// ---- error values -------------------------------------------------------------------------
static void algebra(Src& s, Ctx& c)
{
    const size_t N = 4;
    error pool[N];
    Code model[N] = {error::none, error::none, error::none, error::none};
    size_t n = 1 + s.below(30);
    for (size_t i = 0; i < n; i++)
    {
        size_t a = s.below(N), b = s.below(N);
        Code k = codes[s.below(ncodes)];
        switch (s.below(9))
        {
        case 0: pool[a] = error(k); model[a] = k; break;
        case 1: pool[a] = k; model[a] = k; break;
        case 2: pool[a] = pool[b]; model[a] = model[b]; break;
        case 3: { error t(pool[b]); pool[a] = std::move(t); model[a] = model[b]; break; }
        case 4: pool[a].clear(); model[a] = error::none; break;
        case 5: { error t; if (t || !(t == error::none)) pbt::fail("algebra", "a new error is not empty"); break; }
        case 6: { error t(std::move(pool[b])); if (Code(t) != model[b]) pbt::fail("algebra", "moving changed the value"); pool[b] = t; break; }
        case 7: try { throw pool[a]; } catch (const error& t) { if (Code(t) != model[a]) pbt::fail("algebra", "throwing changed the value"); } break;
        default: { const error& t = pool[a]; if (bool(t) != (model[a] != error::none)) pbt::fail("algebra", "bool conversion"); }
        }
        for (size_t j = 0; j < N; j++)
        {
            if (Code(pool[j]) != model[j]) pbt::fail("algebra", fmt("value %d, expected %d", int(Code(pool[j])), int(model[j])));
            if (bool(pool[j]) != (model[j] != error::none)) pbt::fail("algebra", "bool conversion");
            for (Code q: codes)
                if ((pool[j] == q) != (model[j] == q) || (pool[j] != q) != (model[j] != q) || (q == pool[j]) != (model[j] == q)) pbt::fail("algebra", "comparison");
        }
    }
    c.nontrivial = n > 1;
    c.note("%zu operations", n);
}
PBT_TEST("values", algebra, 100000, 2000000, nullptr, nullptr, 20000, 200000,
         "histories of construction, copying, moving, assignment, throwing and clearing of error values against a model; non-trivial: more than one operation");
