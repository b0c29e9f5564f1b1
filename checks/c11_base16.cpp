// C11: base-16.
#include "../lib/codec.h"
using namespace codec;
using T = mp::codec_base_16;
static const char digits[] = "0123456789abcdefABCDEF";

static int val(u8 c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static bool model(const bytes& t, bytes& out)
{
    out.clear();
    size_t i = 0;
    if (t.size() % 2)
    {
        int v = val(t[0]);
        if (v < 0) return false;
        out.push_back(u8(v));
        i = 1;
    }
    for (; i < t.size(); i += 2)
    {
        int a = val(t[i]), b = val(t[i + 1]);
        if (a < 0 || b < 0) return false;
        out.push_back(u8(a << 4 | b));
    }
    return true;
}

static void enc(Src& s, Ctx& c)
{
    size_t n = length(s, 3000, 16);
    bytes m = s.content(n);
    c.note("%zu bytes", n);
    c.nontrivial = n > 0;
    bytes t = encode_any<T>(s, c, m, 2 * n), out;
    // two digits per byte, of the byte's value
    if (t.size() != 2 * n) pbt::fail("encode", fmt("%zu characters for %zu bytes", t.size(), n));
    for (size_t i = 0; i < n; i++)
        if (val(t[2 * i]) != m[i] >> 4 || val(t[2 * i + 1]) != (m[i] & 15)) pbt::fail("encode", fmt("byte %zu (%02x) encoded as %c%c", i, m[i], t[2 * i], t[2 * i + 1]));
    bool upper = false, lower = false;
    for (u8 x: t) { upper |= x >= 'A' && x <= 'F'; lower |= x >= 'a' && x <= 'f'; }
    if (upper && lower) pbt::fail("encode", "mixed case in one encoding");
    auto r = decode_any<T>(s, c, t, n, milo::error::codec_base_16_decode);
    if (!r.ok) pbt::fail("round-trip", "an encoding does not decode");
    pbt::same("round-trip", r.out, m, "decode(encode(x))");
}
PBT_TEST("encode", enc, 150000, 3000000, [](bool t) { return size_t(t ? 3000 : 700); }, [](size_t i, bool) { return std::vector<u64>{0, i}; }, 60000, 1000000,
         "bytes of every length, call forms, byte types; encoding checked digit by digit, then decoded; non-trivial: not empty");

static void check(Src& s, Ctx& c, const bytes& t)
{
    bytes want;
    bool ok = model(t, want);
    c.label(ok ? "valid" : "invalid");
    auto r = decode_any<T>(s, c, t, t.size() / 2 + t.size() % 2, milo::error::codec_base_16_decode);
    if (r.ok != ok) pbt::fail(ok ? "rejected" : "accepted", fmt("%s %s", pbt::hex(t, 80).c_str(), ok ? "is valid but was rejected" : "is invalid but was accepted"));
    if (ok) pbt::same("decode", r.out, want, "decoded " + pbt::hex(t, 80));
    else
    {
        if (r.out.size() > want.size()) pbt::fail("error-output", fmt("%zu bytes of output claimed, %zu digit pairs are valid: %s", r.out.size(), want.size(), pbt::hex(t, 80).c_str()));
        pbt::same("error-output", r.out, h::prefix(want, r.out.size()), "bytes before the error");
    }
}
static void dec(Src& s, Ctx& c)
{
    size_t n = length(s, 600, 16);
    bytes t(n);
    u64 alpha = s.below(5);
    size_t bad = n && s.below(2) ? s.below(n) : n;
    u8 badc = u8(s.below(256));
    bytes z = s.content(n);
    for (size_t i = 0; i < n; i++) t[i] = alpha == 0 ? z[i] : alpha == 1 ? u8(digits[z[i] % 16]) : u8(digits[z[i] % 22]);
    if (bad < n) t[bad] = badc;
    if (n && s.below(6) == 0) t[s.below(n)] = u8(digits[s.below(22)] ^ (1 << s.below(8)));
    c.note("text %s", pbt::hex(t, 40).c_str());
    c.nontrivial = n > 0;
    check(s, c, t);
}
PBT_TEST("decode", dec, 300000, 6000000, [](bool t) { return size_t(t ? 600 : 200); }, [](size_t i, bool) { return std::vector<u64>{0, i}; }, 150000, 3000000,
         "texts over the digits, with one character replaced by any byte or one bit flipped, or arbitrary; even and odd lengths; oracle: strict model of the language; non-trivial: not empty");

// every character at every position of short texts
static void chars(Src& s, Ctx& c)
{
    size_t n = 1 + s.below(6), at = s.below(6) % n;
    bytes t(n);
    for (size_t i = 0; i < n; i++) t[i] = u8(digits[(i * 5 + 3) % 22]);
    t[at] = u8(s.below(256));
    if (n > 1 && s.below(2)) t[(at + 1) % n] = u8(s.below(256));
    c.note("text %s", pbt::hex(t).c_str());
    c.nontrivial = true;
    check(s, c, t);
}
PBT_TEST("characters", chars, 100000, 1000000, [](bool) { return size_t(6 * 6 * 256 * 14); },
         [](size_t i, bool) { return std::vector<u64>{i % 6, i / 6 % 6, i / 36 % 256}; }, 0, 0,
         "every byte value at every position of texts of 1..6 characters; all non-trivial");

static void wide_(Src& s, Ctx& c)
{
    size_t n = wide(s, c), odd = s.below(2);
    bool enc = s.below(2);
    c.note("%s %zu", enc ? "encode" : "decode", n);
    c.nontrivial = true;
    if (enc)
    {
        bytes m = s.content(n), t = encode_any<T>(s, c, m, 2 * n), w;
        if (t.size() != 2 * n || !model(t, w)) pbt::fail("encode", fmt("%zu characters for %zu bytes, or not digits", t.size(), n));
        pbt::same("encode", w, m, "the digits of a wide encoding");
    }
    else
    {
        bytes t = s.content(n + odd);
        for (u8& x: t) x = u8(digits[x % 22]);
        if (s.below(3) == 2) t[t.size() - 1 - s.below(40)] = u8(s.below(256));
        check(s, c, t);
    }
}
PBT_TEST("wide", wide_, 0, 20000, [](bool t) { return 16 * wide_count(t); }, [](size_t i, bool) { return std::vector<u64>{i / 16, 0, i % 2, i % 2}; }, 0, 0,
         "bytes and texts next to every power of two from 2^8 to 2^18 (thorough: 2^20); all non-trivial");
