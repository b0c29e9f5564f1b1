// C12: base-64.
#include "../lib/codec.h"
using namespace codec;
using T = mp::codec_base_64;
static const char digits[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int val(u8 c) { const char* p = c ? strchr(digits, c) : nullptr; return p ? int(p - digits) : -1; }

// valid: whole groups, alphabet only, one or two padding characters at the very end.  RFC 4648
// leaves it to the decoder whether leftover bits before padding must be zero: `loose` then.
static bool model(const bytes& t, bytes& out, bool& loose)
{
    out.clear();
    loose = false;
    if (t.size() % 4) return false;
    for (size_t i = 0; i < t.size(); i += 4)
    {
        bool last = i + 4 == t.size();
        size_t pad = 0;
        if (last && t[i + 3] == '=') pad = t[i + 2] == '=' ? 2 : 1;
        u32 v = 0;
        for (size_t j = 0; j < 4; j++)
        {
            int x = j >= 4 - pad ? 0 : val(t[i + j]);
            if (x < 0) return false;
            v = v << 6 | u32(x);
        }
        u8 b[3] = {u8(v >> 16), u8(v >> 8), u8(v)};
        for (size_t j = pad ? 3 - pad : 3; j < 3; j++) if (b[j]) loose = true;
        out.insert(out.end(), b, b + 3 - pad);
    }
    return true;
}
static void check(Src& s, Ctx& c, const bytes& t)
{
    bytes want;
    bool loose, ok = model(t, want, loose);
    c.label(ok ? loose ? "leftover-bits" : "valid" : "invalid");
    auto r = decode_any<T>(s, c, t, t.size() * 3 / 4 + 3, milo::error::codec_base_64_decode);
    if (r.ok != ok && !(ok && loose)) pbt::fail(ok ? "rejected" : "accepted", fmt("%s %s", pbt::hex(t, 80).c_str(), ok ? "is valid but was rejected" : "is invalid but was accepted"));
    if (r.ok) pbt::same("decode", r.out, want, "decoded " + pbt::hex(t, 80));
    else
    {
        if (r.out.size() > want.size()) pbt::fail("error-output", fmt("%zu bytes of output claimed, the valid groups hold %zu: %s", r.out.size(), want.size(), pbt::hex(t, 80).c_str()));
        pbt::same("error-output", r.out, h::prefix(want, r.out.size()), "bytes before the error");
    }
}
static void enc(Src& s, Ctx& c)
{
    size_t n = length(s, 3000, 16);
    bytes m = s.content(n);
    c.note("%zu bytes", n);
    c.nontrivial = n > 0;
    bytes t = encode_any<T>(s, c, m, (n + 2) / 3 * 4);
    std::string w = ref::base64(m);
    pbt::same("encode", t, bytes(w.begin(), w.end()), "encoding of " + pbt::hex(m));
    auto r = decode_any<T>(s, c, t, n, milo::error::codec_base_64_decode);
    if (!r.ok) pbt::fail("round-trip", "an encoding does not decode");
    pbt::same("round-trip", r.out, m, "decode(encode(x))");
}
PBT_TEST("encode", enc, 150000, 3000000, [](bool t) { return size_t(t ? 3000 : 700); }, [](size_t i, bool) { return std::vector<u64>{0, i}; }, 60000, 1000000,
         "bytes of every length, call forms, byte types; encoding compared with the reference, then decoded; non-trivial: not empty");

static void dec(Src& s, Ctx& c)
{
    size_t n = length(s, 600, 4);
    bytes t(n), z = s.content(n);
    u64 alpha = s.below(6);
    for (size_t i = 0; i < n; i++) t[i] = alpha == 0 ? z[i] : u8(digits[z[i] % 64]);
    u64 pad = s.below(4);
    for (size_t i = 0; i < pad && i < n; i++) t[n - 1 - i] = '=';
    if (n && s.below(2)) t[s.below(n)] = s.below(2) ? '=' : u8(s.below(256));
    if (n && s.below(6) == 0) t[s.below(n)] = u8(digits[s.below(64)] ^ (1 << s.below(8)));
    if (n > 3 && s.below(6) == 0) std::swap(t[n - 1 - s.below(4)], t[n - 1 - s.below(4)]);
    c.note("text %s", pbt::hex(t, 40).c_str());
    c.nontrivial = n > 0;
    check(s, c, t);
}
PBT_TEST("decode", dec, 400000, 8000000, [](bool t) { return size_t(t ? 600 : 200); }, [](size_t i, bool) { return std::vector<u64>{0, i}; }, 150000, 3000000,
         "texts over the alphabet with 0..3 padding characters, one character replaced, one bit flipped, or arbitrary; all lengths; oracle: strict model; non-trivial: not empty");

static void chars(Src& s, Ctx& c)
{
    size_t g = 1 + s.below(3), at = s.below(12) % (4 * g), pad = s.below(3);
    u8 ch = u8(s.below(256));
    bytes t(4 * g);
    for (size_t i = 0; i < t.size(); i++) t[i] = u8(digits[(i * 11 + 5) % 64]);
    for (size_t i = 0; i < pad; i++) t[t.size() - 1 - i] = '=';
    t[at] = ch;
    c.note("text %s", pbt::hex(t).c_str());
    c.nontrivial = true;
    check(s, c, t);
}
PBT_TEST("characters", chars, 0, 0, [](bool) { return size_t(3 * 12 * 3 * 256 * 9); },
         [](size_t i, bool) { return std::vector<u64>{i % 3, i / 3 % 12, i / 36 % 3, i / 108 % 256}; }, 0, 0,
         "every byte value at every position of one to three groups with 0..2 padding characters, call forms drawn; all non-trivial");
// all padding shapes: each of four characters of the last group is a digit, '=' or foreign
static void shapes(Src& s, Ctx& c)
{
    size_t g = s.below(3), k = s.below(81 * 4);
    bytes t(4 * g, 'Q');
    size_t last = 4 - k / 81 % 4;
    for (size_t i = 0; i < last; i++) { t.push_back(u8("Ag="[k % 3] == 'g' ? '*' : "Ag="[k % 3])); k /= 3; }
    c.note("text %s", pbt::hex(t).c_str());
    c.nontrivial = true;
    check(s, c, t);
}
PBT_TEST("padding-shapes", shapes, 0, 0, [](bool) { return size_t(3 * 324 * 20); }, [](size_t i, bool) { return std::vector<u64>{i % 3, i / 3 % 324}; }, 0, 0,
         "every pattern of digit, padding and foreign character in a last group of one to four characters; all non-trivial");

static void wide_(Src& s, Ctx& c)
{
    size_t n = wide(s, c);
    bool enc = s.below(2);
    c.note("%s %zu", enc ? "encode" : "decode", n);
    c.nontrivial = true;
    if (enc)
    {
        bytes m = s.content(n), t = encode_any<T>(s, c, m, (n + 2) / 3 * 4);
        std::string w = ref::base64(m);
        pbt::same("encode", t, bytes(w.begin(), w.end()), "a wide encoding");
    }
    else
    {
        bytes t = s.content(n / 4 * 4);
        for (u8& x: t) x = u8(digits[x % 64]);
        for (size_t i = 0, p = s.below(4); i < p && i < 2; i++) t[t.size() - 1 - i] = '=';
        if (s.below(3) == 2) t[t.size() - 1 - s.below(40)] = u8(s.below(256));
        check(s, c, t);
    }
}
PBT_TEST("wide", wide_, 0, 20000, [](bool t) { return 16 * wide_count(t); }, [](size_t i, bool) { return std::vector<u64>{i / 16, 0, i % 2}; }, 0, 0,
         "bytes and texts next to every power of two from 2^8 to 2^18 (thorough: 2^20); all non-trivial");
