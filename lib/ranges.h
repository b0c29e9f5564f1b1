// Every operation through every call form, over drawn ranges; RANGES 1..4 define the table in parts.
#pragma once
#include "codec.h"
using namespace drv;
struct Range { const char* name; Need need; bytes (*run)(Src&, Ctx&, size_t); };
std::vector<Range> ranges_1(), ranges_2(), ranges_3(), ranges_4();
template<class F> static auto two_bytes(Src& s, F f)
{
    return s.below(3) ? f(Tag<unsigned char>{}) : f(Tag<char>{});
}
#if RANGES == 1
template<class T, ref::Alg A> static bytes hash(Src& s, Ctx& c, size_t n) { return two_bytes(s, [&](auto t) { return hash_once<T, typename decltype(t)::type>(s, c, s.content(n)); }); }
template<class T, ref::Alg A> static bytes mac(Src& s, Ctx& c, size_t n)
{
    size_t k = T::key_size ? T::key_size : s.size(400, 64);
    return two_bytes(s, [&](auto t) { return mac_once<T, typename decltype(t)::type>(s, c, s.content(k), s.content(n), T::key_size ? 16 : 64); });
}
#define X(a, n, need) r.push_back({#n, need, hash<mp::hash_##n, ref::a>}); r.push_back({"hmac " #n, need, mac<mp::mac_hmac_##n, ref::a>});
std::vector<Range> ranges_1()
{
    std::vector<Range> r;
    DRV_HASHES(X)
    r.push_back({"poly_1305", any, mac<mp::mac_poly_1305, ref::sha1>});
    r.push_back({"poly_1305_sw", any, mac<mp::mac_poly_1305_sw, ref::sha1>});
    return r;
}
#elif RANGES == 2
template<class T, ref::Alg A> static bytes hkdf(Src& s, Ctx& c, size_t n)
{
    size_t d = ref::digest_size(A);
    n = std::min(n % 1400, 255 * d);
    c.note(" n=%zu", n);
    return hkdf_once<T, u8>(s, c, s.content(s.size(300, 64)), s.content(s.size(300, 64)), s.content(s.size(300, 64)), n);
}
#define X(a, n, need) r.push_back({"hkdf " #n, need, hkdf<mp::kdf_hkdf_hmac_##n, ref::a>});
std::vector<Range> ranges_2() { std::vector<Range> r; DRV_HASHES(X) return r; }
#elif RANGES == 3
template<class T, ref::Alg A> static bytes pbkdf(Src& s, Ctx& c, size_t n)
{
    n %= 400;
    c.note(" n=%zu", n);
    return pbkdf_once<T, u8>(s, c, s.content(s.size(300, 64)), s.content(s.size(300, 64)), 1 + s.below(4), n);
}
#define X(a, n, need) r.push_back({"pbkdf_2 " #n, need, pbkdf<mp::kdf_pbkdf_2_hmac_##n, ref::a>});
std::vector<Range> ranges_3() { std::vector<Range> r; DRV_HASHES(X) return r; }
#elif RANGES == 4
template<class T> static bytes cipher(Src& s, Ctx& c, size_t n)
{
    bytes iv = s.content(16);
    if (s.below(4) == 0) { u32 x = 0u - u32(s.below(80)); memcpy(iv.data(), &x, 4); }
    return with_byte(s, [&](auto t) { return cipher_once<T, typename decltype(t)::type>(s, c, s.content(32), iv, s.content(n), s.below(2)); });
}
template<class T> static bytes aead(Src& s, Ctx& c, size_t n)
{
    size_t an = s.below(3) ? s.size(400, 16) : n;
    c.note(" aad=%zu", an);
    bytes ad = s.content(an);
    return two_bytes(s, [&](auto t) { auto r = aead_once<T, typename decltype(t)::type>(s, c, s.content(32), s.content(12), ad, s.content(n), s.below(2)); return cat(r.text, r.tag); });
}
template<class T> static bytes enc(Src& s, Ctx& c, size_t n) { return codec::encode_any<T>(s, c, s.content(n), sizeof(T) && std::is_same_v<T, mp::codec_base_16> ? 2 * n : (n + 2) / 3 * 4); }
template<class T> static bytes dec(Src& s, Ctx& c, size_t n)
{
    static const char d[] = "0123456789abcdefABCDEFghijklmnopqrstuvwxyzGHIJKLMNOPQRSTUVWXYZ+/";
    bytes t = s.content(n);
    bool b64 = std::is_same_v<T, mp::codec_base_64>;
    if (s.below(8)) for (auto& x: t) x = u8(d[x % (b64 ? 64 : 22)]);
    if (b64 && s.below(2)) { while (t.size() % 4) t.push_back('='); }
    if (b64 && !t.empty() && s.below(2)) { t.back() = '='; if (t.size() > 1 && s.below(2)) t[t.size() - 2] = '='; }
    if (!t.empty() && s.below(3) == 0) t[s.below(t.size())] = u8(s.below(256));
    c.note(" text %zu", t.size());
    using milo::error;
    try { auto r = codec::decode_any<T>(s, c, t, t.size(), b64 ? error::codec_base_64_decode : error::codec_base_16_decode); r.out.push_back(r.ok); return r.out; }
    catch (const pbt::Fail& f) { if (f.key == "outside-write" || f.key == "input-modified") throw; return bytes(f.key.begin(), f.key.end()); }   // what the codecs accept is judged elsewhere
}
std::vector<Range> ranges_4()
{
    return {{"chacha_20", any, cipher<mp::cipher_chacha_20>}, {"chacha_20_sw", any, cipher<mp::cipher_chacha_20_sw>},
            {"chacha_20_ssse_3", ssse3, cipher<mp::cipher_chacha_20_hw_x86_64_ssse_3>}, {"chacha_20_avx_2", avx2, cipher<mp::cipher_chacha_20_hw_x86_64_avx_2>},
            {"aead", any, aead<mp::aead_chacha_20_poly_1305>}, {"aead_sw", any, aead<mp::aead_chacha_20_sw_poly_1305_sw>},
            {"base_16 encode", any, enc<mp::codec_base_16>}, {"base_16 decode", any, dec<mp::codec_base_16>},
            {"base_64 encode", any, enc<mp::codec_base_64>}, {"base_64 decode", any, dec<mp::codec_base_64>}};
}
#else
static const size_t nr = 36 + 17 + 17 + 10;
static const std::vector<Range>& all()
{
    static std::vector<Range> v;
    if (v.empty()) for (auto f: {ranges_1, ranges_2, ranges_3, ranges_4}) for (auto& x: f()) v.push_back(x);
    return v;
}
#endif
