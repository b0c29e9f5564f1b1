// Independent reference implementations, written from the specifications (FIPS 180-4, RFC 2104,
// RFC 5869, RFC 8018, RFC 8439, RFC 4648).  They share no code with milo.
#pragma once
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

namespace ref
{
    using u8 = std::uint8_t;
    using u32 = std::uint32_t;
    using u64 = std::uint64_t;
    using bytes = std::vector<u8>;

    enum Alg { sha1, sha224, sha256, sha384, sha512, sha512_224, sha512_256, alg_count };
    extern const char* alg_name[alg_count];
    size_t digest_size(Alg);
    size_t block_size(Alg);

    struct Hash
    {
        explicit Hash(Alg);
        void update(const u8* p, size_t n);
        bytes final();
        Alg alg;
        u32 h32[8];
        u64 h64[8];
        u8 buf[128];
        size_t fill = 0;
        unsigned __int128 total = 0;
    };
    bytes hash(Alg, const bytes&);
    bytes hmac(Alg, const bytes& key, const bytes& msg);
    bytes hkdf(Alg, const bytes& ikm, const bytes& salt, const bytes& info, size_t n);
    bytes pbkdf2(Alg, const bytes& ikm, const bytes& salt, size_t iterations, size_t n);

    struct Poly
    {
        explicit Poly(const u8 key[32]);
        void update(const u8* p, size_t n);
        bytes final();
        u64 r[2], h[3] = {0, 0, 0};
        u8 s[16], buf[16];
        size_t fill = 0;
        void block(const u8* p, size_t n);
    };
    bytes poly1305(const u8 key[32], const bytes& msg);

    void chacha_block(const u8 key[32], const u8 nonce[12], u32 counter, u8 out[64], int rounds = 20);
    // counter wraps modulo 2^32
    bytes chacha20(const u8 key[32], const u8 nonce[12], u32 counter, const bytes& in);
    void chacha20_xor(const u8 key[32], const u8 nonce[12], u32 counter, const u8* in, u8* out, size_t n);
    bytes aead_tag(const u8 key[32], const u8 nonce[12], const bytes& aad, const bytes& ciphertext);

    std::string base16(const bytes&);
    std::string base64(const bytes&);
    // strict RFC 4648: false when not a valid encoding
    bool unbase16(const std::string&, bytes&);
    bool unbase64(const std::string&, bytes&);
}
