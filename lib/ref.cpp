#include "ref.h"
#include <cstring>

namespace ref
{
    const char* alg_name[alg_count] = {"sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256"};
    size_t digest_size(Alg a)
    {
        static const size_t n[] = {20, 28, 32, 48, 64, 28, 32};
        return n[a];
    }
    size_t block_size(Alg a) { return a <= sha256 ? 64 : 128; }

    static u32 rl(u32 x, int n) { return (x << n) | (x >> (32 - n)); }
    static u32 rr(u32 x, int n) { return (x >> n) | (x << (32 - n)); }
    static u64 rr(u64 x, int n) { return (x >> n) | (x << (64 - n)); }
    static u32 be32(const u8* p) { return u32(p[0]) << 24 | u32(p[1]) << 16 | u32(p[2]) << 8 | p[3]; }
    static u64 be64(const u8* p) { return u64(be32(p)) << 32 | be32(p + 4); }
    static u32 le32(const u8* p) { return u32(p[3]) << 24 | u32(p[2]) << 16 | u32(p[1]) << 8 | p[0]; }
    static u64 le64(const u8* p) { return u64(le32(p + 4)) << 32 | le32(p); }

    // K constants are derived, not copied: fractional parts of cube roots of the first primes
    static void primes(int* out, int n)
    {
        int k = 0;
        for (int c = 2; k < n; c++)
        {
            bool ok = true;
            for (int i = 0; i < k; i++) if (c % out[i] == 0) { ok = false; break; }
            if (ok) out[k++] = c;
        }
    }
    // first 64 bits of the fractional part of the e-th root (e = 2, 3) of p, exactly, by bitwise search
    static u64 frac_root(int p, int e)
    {
        using u128 = unsigned __int128;
        // find the largest x with x^e <= p * 2^(64 e); x = integer part * 2^64 + fraction
        auto le = [&](u128 x) -> bool
        {
            // compare x^e with p << (64*e) using 32-bit limbs
            u32 xl[5] = {u32(x), u32(x >> 32), u32(x >> 64), u32(x >> 96), 0};
            std::vector<u32> acc{1};
            for (int i = 0; i < e; i++)
            {
                std::vector<u32> n(acc.size() + 5, 0);
                for (size_t a = 0; a < acc.size(); a++)
                {
                    u64 carry = 0;
                    for (int b = 0; b < 5; b++)
                    {
                        u64 t = u64(acc[a]) * xl[b] + n[a + b] + carry;
                        n[a + b] = u32(t);
                        carry = t >> 32;
                    }
                }
                acc = n;
            }
            std::vector<u32> rhs(acc.size(), 0);
            rhs[2 * e] = u32(p);
            for (size_t i = acc.size(); i-- > 0;)
                if (acc[i] != rhs[i]) return acc[i] < rhs[i];
            return true;
        };
        u128 x = 0;
        for (int b = 69; b >= 0; b--)
            if (le(x | (u128(1) << b))) x |= u128(1) << b;
        return u64(x);
    }
    struct Tables
    {
        u32 k256[64];
        u64 k512[80];
        u64 sq[16];
        Tables()
        {
            int p[80];
            primes(p, 80);
            for (int i = 0; i < 80; i++)
            {
                k512[i] = frac_root(p[i], 3);
                if (i < 64) k256[i] = u32(k512[i] >> 32);
                if (i < 16) sq[i] = frac_root(p[i], 2);
            }
        }
    };
    static const Tables& tab() { static const Tables t; return t; }

    static void block512(u64 h[8], const u8* p);

    Hash::Hash(Alg a) : alg(a)
    {
        auto& t = tab();
        switch (a)
        {
        case sha1: { static const u32 iv[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; memcpy(h32, iv, 20); break; }
        case sha256: for (int i = 0; i < 8; i++) h32[i] = u32(t.sq[i] >> 32); break;
        case sha224: for (int i = 0; i < 8; i++) h32[i] = u32(t.sq[8 + i]); break;
        case sha512: for (int i = 0; i < 8; i++) h64[i] = t.sq[i]; break;
        case sha384: for (int i = 0; i < 8; i++) h64[i] = t.sq[8 + i]; break;
        default:
        {
            // FIPS 180-4 5.3.6: the IV generation function
            Hash g(sha512);
            for (auto& x: g.h64) x ^= 0xa5a5a5a5a5a5a5a5ull;
            const char* n = a == sha512_224 ? "SHA-512/224" : "SHA-512/256";
            g.update((const u8*)n, 11);
            bytes d = g.final();
            for (int i = 0; i < 8; i++) h64[i] = be64(&d[8 * i]);
        }
        }
    }
    static void block1(u32 h[5], const u8* p)
    {
        u32 w[80];
        for (int i = 0; i < 16; i++) w[i] = be32(p + 4 * i);
        for (int i = 16; i < 80; i++) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; i++)
        {
            u32 f, k;
            if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999; }
            else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
            else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; }
            else { f = b ^ c ^ d; k = 0xca62c1d6; }
            u32 t = rl(a, 5) + f + e + k + w[i];
            e = d; d = c; c = rl(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    static void block256(u32 h[8], const u8* p)
    {
        auto& t = tab();
        u32 w[64];
        for (int i = 0; i < 16; i++) w[i] = be32(p + 4 * i);
        for (int i = 16; i < 64; i++)
        {
            u32 s0 = rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3);
            u32 s1 = rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16] + s0 + w[i - 7] + s1;
        }
        u32 v[8];
        memcpy(v, h, 32);
        for (int i = 0; i < 64; i++)
        {
            u32 s1 = rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
            u32 t1 = v[7] + s1 + ch + t.k256[i] + w[i];
            u32 s0 = rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            u32 t2 = s0 + mj;
            v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
        }
        for (int i = 0; i < 8; i++) h[i] += v[i];
    }
    static void block512(u64 h[8], const u8* p)
    {
        auto& t = tab();
        u64 w[80];
        for (int i = 0; i < 16; i++) w[i] = be64(p + 8 * i);
        for (int i = 16; i < 80; i++)
        {
            u64 s0 = rr(w[i - 15], 1) ^ rr(w[i - 15], 8) ^ (w[i - 15] >> 7);
            u64 s1 = rr(w[i - 2], 19) ^ rr(w[i - 2], 61) ^ (w[i - 2] >> 6);
            w[i] = w[i - 16] + s0 + w[i - 7] + s1;
        }
        u64 v[8];
        memcpy(v, h, 64);
        for (int i = 0; i < 80; i++)
        {
            u64 s1 = rr(v[4], 14) ^ rr(v[4], 18) ^ rr(v[4], 41), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
            u64 t1 = v[7] + s1 + ch + t.k512[i] + w[i];
            u64 s0 = rr(v[0], 28) ^ rr(v[0], 34) ^ rr(v[0], 39), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            u64 t2 = s0 + mj;
            v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
        }
        for (int i = 0; i < 8; i++) h[i] += v[i];
    }
    static void blk(Hash& h, const u8* p)
    {
        if (h.alg == sha1) block1(h.h32, p);
        else if (h.alg <= sha256) block256(h.h32, p);
        else block512(h.h64, p);
    }
    void Hash::update(const u8* p, size_t n)
    {
        size_t B = block_size(alg);
        total += n;
        while (n)
        {
            if (fill == 0 && n >= B) { blk(*this, p); p += B; n -= B; continue; }
            size_t k = B - fill < n ? B - fill : n;
            memcpy(buf + fill, p, k);
            fill += k; p += k; n -= k;
            if (fill == B) { blk(*this, buf); fill = 0; }
        }
    }
    bytes Hash::final()
    {
        size_t B = block_size(alg), L = B / 8;
        unsigned __int128 bits = total * 8;
        buf[fill++] = 0x80;
        if (fill > B - L) { memset(buf + fill, 0, B - fill); blk(*this, buf); fill = 0; }
        memset(buf + fill, 0, B - fill);
        for (size_t i = 0; i < L; i++) buf[B - 1 - i] = u8(bits >> (8 * i));
        blk(*this, buf);
        bytes d(64);
        for (int i = 0; i < 64; i++)
            d[i] = B == 64 ? (i < 32 ? u8(h32[i / 4] >> (24 - 8 * (i % 4))) : 0) : u8(h64[i / 8] >> (56 - 8 * (i % 8)));
        d.resize(digest_size(alg));
        return d;
    }
    bytes hash(Alg a, const bytes& m) { Hash h(a); h.update(m.data(), m.size()); return h.final(); }

    struct HmacKey
    {
        Alg a;
        Hash in, out;
        HmacKey(Alg a_, bytes key) : a(a_), in(a_), out(a_)
        {
            size_t B = block_size(a);
            if (key.size() > B) key = hash(a, key);
            key.resize(B);
            bytes i(B), o(B);
            for (size_t k = 0; k < B; k++) { i[k] = key[k] ^ 0x36; o[k] = key[k] ^ 0x5c; }
            in.update(i.data(), B);
            out.update(o.data(), B);
        }
        bytes mac(const bytes& m) const
        {
            Hash x = in, y = out;
            x.update(m.data(), m.size());
            bytes d = x.final();
            y.update(d.data(), d.size());
            return y.final();
        }
    };
    bytes hmac(Alg a, const bytes& key, const bytes& msg) { return HmacKey(a, key).mac(msg); }
    bytes hkdf(Alg a, const bytes& ikm, const bytes& salt, const bytes& info, size_t n)
    {
        bytes s = salt.empty() ? bytes(digest_size(a)) : salt;
        HmacKey prk(a, hmac(a, s, ikm));
        bytes okm, t;
        for (unsigned i = 1; okm.size() < n; i++)
        {
            bytes m = t;
            m.insert(m.end(), info.begin(), info.end());
            m.push_back(u8(i));
            t = prk.mac(m);
            okm.insert(okm.end(), t.begin(), t.end());
        }
        okm.resize(n);
        return okm;
    }
    bytes pbkdf2(Alg a, const bytes& ikm, const bytes& salt, size_t iterations, size_t n)
    {
        HmacKey k(a, ikm);
        bytes out;
        for (u32 i = 1; out.size() < n; i++)
        {
            bytes m = salt;
            for (int b = 3; b >= 0; b--) m.push_back(u8(i >> (8 * b)));
            bytes u = k.mac(m), t = u;
            for (size_t j = 1; j < iterations; j++)
            {
                u = k.mac(u);
                for (size_t q = 0; q < t.size(); q++) t[q] ^= u[q];
            }
            out.insert(out.end(), t.begin(), t.end());
        }
        out.resize(n);
        return out;
    }

    Poly::Poly(const u8 key[32])
    {
        r[0] = le64(key) & 0x0ffffffc0fffffffull;
        r[1] = le64(key + 8) & 0x0ffffffc0ffffffcull;
        memcpy(s, key + 16, 16);
    }
    void Poly::block(const u8* p, size_t n)
    {
        using u128 = unsigned __int128;
        u8 b[24] = {0};
        memcpy(b, p, n);
        b[n] = 1;
        // h += block
        u128 c = u128(h[0]) + le64(b);
        h[0] = u64(c); c >>= 64;
        c += u128(h[1]) + le64(b + 8);
        h[1] = u64(c); c >>= 64;
        h[2] += u64(c) + b[16];
        // h *= r  (h has 3 limbs, the top one small; r has 2)
        u128 m00 = u128(h[0]) * r[0], m01 = u128(h[0]) * r[1], m10 = u128(h[1]) * r[0], m11 = u128(h[1]) * r[1];
        u128 m20 = u128(h[2]) * r[0], m21 = u128(h[2]) * r[1];
        u64 d[4];
        c = u64(m00);
        d[0] = u64(c); c >>= 64;
        c += (m00 >> 64) + u64(m01) + u64(m10);
        d[1] = u64(c); c >>= 64;
        c += (m01 >> 64) + (m10 >> 64) + u64(m11) + u64(m20);
        d[2] = u64(c); c >>= 64;
        c += (m11 >> 64) + (m20 >> 64) + u64(m21);
        d[3] = u64(c);
        // mod 2^130 - 5:  d = lo + 2^130 * hi  ->  lo + 5 * hi
        u64 hi0 = d[2] >> 2 | d[3] << 62, hi1 = d[3] >> 2;
        u64 l2 = d[2] & 3;
        c = u128(d[0]) + u128(hi0) * 5;
        h[0] = u64(c); c >>= 64;
        c += u128(d[1]) + u128(hi1) * 5;
        h[1] = u64(c); c >>= 64;
        h[2] = l2 + u64(c);
    }
    void Poly::update(const u8* p, size_t n)
    {
        while (n)
        {
            if (fill == 0 && n >= 16) { block(p, 16); p += 16; n -= 16; continue; }
            size_t k = 16 - fill < n ? 16 - fill : n;
            memcpy(buf + fill, p, k);
            fill += k; p += k; n -= k;
            if (fill == 16) { block(buf, 16); fill = 0; }
        }
    }
    bytes Poly::final()
    {
        using u128 = unsigned __int128;
        if (fill) block(buf, fill);
        // fully reduce: subtract p while h >= p
        for (int k = 0; k < 8; k++)
        {
            // p = 3, ff..ff, ff..fb
            bool ge = h[2] > 3 || (h[2] == 3 && h[1] == ~0ull && h[0] >= ~0ull - 4);
            if (!ge) break;
            u128 c = u128(h[0]) + 5;              // h - p = h + 5 - 2^130
            h[0] = u64(c);
            c = u128(h[1]) + u64(c >> 64);
            h[1] = u64(c);
            h[2] = h[2] + u64(c >> 64) - 4;
        }
        u128 c = u128(h[0]) + le64(s);
        u64 a = u64(c);
        u64 b = h[1] + le64(s + 8) + u64(c >> 64);
        bytes t(16);
        for (int i = 0; i < 8; i++) { t[i] = u8(a >> (8 * i)); t[8 + i] = u8(b >> (8 * i)); }
        return t;
    }
    bytes poly1305(const u8 key[32], const bytes& m) { Poly p(key); p.update(m.data(), m.size()); return p.final(); }

    void chacha_block(const u8 key[32], const u8 nonce[12], u32 counter, u8 out[64], int rounds)
    {
        u32 s[16], x[16];
        static const char sigma[17] = "expand 32-byte k";
        for (int i = 0; i < 4; i++) s[i] = le32((const u8*)sigma + 4 * i);
        for (int i = 0; i < 8; i++) s[4 + i] = le32(key + 4 * i);
        s[12] = counter;
        for (int i = 0; i < 3; i++) s[13 + i] = le32(nonce + 4 * i);
        memcpy(x, s, 64);
        auto qr = [&](int a, int b, int c, int d)
        {
            x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 16);
            x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 12);
            x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 8);
            x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 7);
        };
        for (int i = 0; i < rounds; i += 2)
        {
            qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
            qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
        }
        for (int i = 0; i < 16; i++)
        {
            u32 v = x[i] + s[i];
            for (int b = 0; b < 4; b++) out[4 * i + b] = u8(v >> (8 * b));
        }
    }
    void chacha20_xor(const u8 key[32], const u8 nonce[12], u32 counter, const u8* in, u8* out, size_t n)
    {
        u8 ks[64];
        for (size_t i = 0; i < n; i++)
        {
            if (i % 64 == 0) chacha_block(key, nonce, u32(counter + i / 64), ks);
            out[i] = in[i] ^ ks[i % 64];
        }
    }
    bytes chacha20(const u8 key[32], const u8 nonce[12], u32 counter, const bytes& in)
    {
        bytes out(in.size());
        chacha20_xor(key, nonce, counter, in.data(), out.data(), in.size());
        return out;
    }
    bytes aead_tag(const u8 key[32], const u8 nonce[12], const bytes& aad, const bytes& ct)
    {
        u8 b[64];
        chacha_block(key, nonce, 0, b);
        Poly p(b);
        static const u8 z[16] = {0};
        p.update(aad.data(), aad.size());
        p.update(z, (16 - aad.size() % 16) % 16);
        p.update(ct.data(), ct.size());
        p.update(z, (16 - ct.size() % 16) % 16);
        u8 l[16];
        for (int i = 0; i < 8; i++) { l[i] = u8(u64(aad.size()) >> (8 * i)); l[8 + i] = u8(u64(ct.size()) >> (8 * i)); }
        p.update(l, 16);
        return p.final();
    }

    std::string base16(const bytes& b)
    {
        std::string s;
        for (u8 x: b) { s += "0123456789abcdef"[x >> 4]; s += "0123456789abcdef"[x & 15]; }
        return s;
    }
    static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string base64(const bytes& b)
    {
        std::string s;
        for (size_t i = 0; i < b.size(); i += 3)
        {
            size_t n = b.size() - i < 3 ? b.size() - i : 3;
            u32 v = u32(b[i]) << 16 | (n > 1 ? u32(b[i + 1]) << 8 : 0) | (n > 2 ? b[i + 2] : 0);
            for (size_t j = 0; j < 4; j++) s += j <= n ? b64[v >> (18 - 6 * j) & 63] : '=';
        }
        return s;
    }
    bool unbase16(const std::string& s, bytes& out)
    {
        out.clear();
        if (s.size() % 2) return false;
        auto v = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
        for (size_t i = 0; i < s.size(); i += 2)
        {
            int a = v(s[i]), b = v(s[i + 1]);
            if (a < 0 || b < 0) return false;
            out.push_back(u8(a * 16 + b));
        }
        return true;
    }
    bool unbase64(const std::string& s, bytes& out)
    {
        out.clear();
        if (s.size() % 4) return false;
        size_t n = s.size(), pad = 0;
        if (n && s[n - 1] == '=') { pad = 1; if (s[n - 2] == '=') pad = 2; }
        u32 acc = 0;
        int bits = 0;
        for (size_t i = 0; i < n - pad; i++)
        {
            const char* q = s[i] ? strchr(b64, s[i]) : nullptr;
            if (!q) return false;
            acc = acc << 6 | u32(q - b64);
            bits += 6;
            if (bits >= 8) { bits -= 8; out.push_back(u8(acc >> bits)); }
        }
        return true;
    }
}
