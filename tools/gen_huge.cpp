// Prints lib/huge_expected.h: reference results for the huge inputs (see lib/huge.h).
#include "../lib/huge.h"
#include <thread>
using namespace h;
static void hexline(const bytes& b) { printf("\""); for (u8 x: b) printf("\\x%02x", x); printf("\""); }
int main()
{
    const u8* p = huge::in();
    bytes k = huge::key();
    bytes hs[ref::alg_count][4], hm[ref::alg_count][4], po[4], aa[4], ct[4], de[4];
    std::vector<std::thread> t;
    for (int a = 0; a < ref::alg_count; a++) t.emplace_back([&, a] {
        for (int i = 0; i < 4; i++) { ref::Hash x((ref::Alg)a); x.update(p, huge::lengths[i]); hs[a][i] = x.final(); }
        bytes ip(ref::block_size((ref::Alg)a)), op = ip;
        for (size_t i = 0; i < ip.size(); i++) { u8 b = i < 32 ? k[i] : 0; ip[i] = b ^ 0x36; op[i] = b ^ 0x5c; }
        for (int i = 0; i < 4; i++) { ref::Hash x((ref::Alg)a); x.update(ip.data(), ip.size()); x.update(p, huge::lengths[i]); bytes d = x.final();
            ref::Hash y((ref::Alg)a); y.update(op.data(), op.size()); y.update(d.data(), d.size()); hm[a][i] = y.final(); }
    });
    t.emplace_back([&] { for (int i = 0; i < 4; i++) { ref::Poly x(k.data()); x.update(p, huge::lengths[i]); po[i] = x.final(); } });
    // aead: nonce zero; aad huge with empty text, text huge with empty aad
    t.emplace_back([&] {
        u8 iv[12] = {};
        u8 blk[64];
        ref::chacha_block(k.data(), iv, 0, blk);
        auto len = [](ref::Poly& x, h::u64 v) { u8 b[8]; for (int i = 0; i < 8; i++) b[i] = u8(v >> (8 * i)); x.update(b, 8); };
        for (int i = 0; i < 4; i++)
        {
            size_t n = huge::lengths[i];
            u8 z[16] = {};
            ref::Poly x(blk); x.update(p, n); x.update(z, (16 - n % 16) % 16); len(x, n); len(x, 0); aa[i] = x.final();
            ref::Poly w(blk); w.update(p, n); w.update(z, (16 - n % 16) % 16); len(w, 0); len(w, n); de[i] = w.final();
            ref::Poly y(blk);
            std::vector<u8> o(huge::MB);
            for (size_t pos = 0; pos < n; pos += huge::MB) { size_t m = std::min(huge::MB, n - pos); ref::chacha20_xor(k.data(), iv, 1 + u32(pos / 64), p, o.data(), m); y.update(o.data(), m); }
            y.update(z, (16 - n % 16) % 16); len(y, 0); len(y, n); ct[i] = y.final();
        }
    });
    for (auto& x: t) x.join();
    printf("// Written by tools/gen_huge.cpp from lib/ref.cpp alone (hashes cross-checked with hashlib).\n#pragma once\nnamespace huge\n{\n");
    auto tab = [&](const char* n, bytes (*v)[4], int c) {
        printf("    inline const char* const %s[%d][4] = {\n", n, c);
        for (int a = 0; a < c; a++) { printf("        {"); for (int i = 0; i < 4; i++) { hexline(v[a][i]); printf(i < 3 ? ",\n         " : "},\n"); } }
        printf("    };\n"); };
    tab("x_hash", hs, ref::alg_count); tab("x_hmac", hm, ref::alg_count);
    tab("x_poly", &po, 1); tab("x_aad", &aa, 1); tab("x_text", &ct, 1); tab("x_dec", &de, 1);
    printf("}\n");
}
