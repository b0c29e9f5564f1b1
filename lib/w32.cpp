// A program for a 32-bit processor (size_t of 32 bits), without any library but milo: reads requests
// (see checks/c37_words.cpp) from its input and writes results. Compiled with g++ -m32 -nostdlib.
#include <milo/error.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/mac/poly.h>
namespace mp = milo::primitive;
using u8 = unsigned char;
using u32 = unsigned;
using u64 = unsigned long long;
#ifdef HOSTED                     // the same for this processor
#include <sys/mman.h>
#include <unistd.h>
#include <cstring>
[[noreturn]] static void quit(int code) { _exit(code); }
static void get(void* p, size_t n) { while (n) { long r = read(0, p, n); if (r <= 0) quit(0); p = (u8*)p + r, n -= size_t(r); } }
static void put(const void* p, size_t n) { while (n) { long r = write(1, p, n); if (r <= 0) quit(0); p = (const u8*)p + r, n -= size_t(r); } }
static u8* map(size_t n)
{
    u8* r = (u8*)mmap(nullptr, n + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r == MAP_FAILED || mprotect(r + 4096, n, PROT_READ | PROT_WRITE)) quit(95);
    return r + 4096;
}
#else
static_assert(sizeof(size_t) == 4 && sizeof(void*) == 4);
static long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0)
{
    long r;
    __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c), "S"(d), "D"(e) : "memory");
    return r;
}
[[noreturn]] static void quit(int code) { for (;;) sys(252, code); }
extern "C"
{
    void* memcpy(void* d, const void* s, size_t n) { for (size_t i = 0; i < n; i++) { ((volatile u8*)d)[i] = ((const u8*)s)[i]; } return d; }
    void* memmove(void* d, const void* s, size_t n)
    {
        if ((u8*)d < (const u8*)s) return memcpy(d, s, n);
        for (size_t i = n; i--;) ((volatile u8*)d)[i] = ((const u8*)s)[i];
        return d;
    }
    void* memset(void* d, int v, size_t n) { for (size_t i = 0; i < n; i++) ((volatile u8*)d)[i] = u8(v); return d; }
    int memcmp(const void* a, const void* b, size_t n) { for (size_t i = 0; i < n; i++) if (((const volatile u8*)a)[i] != ((const u8*)b)[i]) return ((const u8*)a)[i] < ((const u8*)b)[i] ? -1 : 1; return 0; }
    // what the compiler calls for 64-bit division
    u64 __udivmoddi4(u64 a, u64 b, u64* m)
    {
        u64 q = 0, r = 0;
        for (int i = 63; i >= 0; i--) { r = r << 1 | (a >> i & 1); if (r >= b) r -= b, q |= 1ull << i; }
        if (m) *m = r;
        return q;
    }
    u64 __udivdi3(u64 a, u64 b) { return __udivmoddi4(a, b, nullptr); }
    u64 __umoddi3(u64 a, u64 b) { u64 r; __udivmoddi4(a, b, &r); return r; }
    long long __divdi3(long long a, long long b) { u64 q = __udivmoddi4(a < 0 ? -u64(a) : u64(a), b < 0 ? -u64(b) : u64(b), nullptr); return (long long)((a < 0) != (b < 0) ? -q : q); }
    long long __moddi3(long long a, long long b) { u64 r; __udivmoddi4(a < 0 ? -u64(a) : u64(a), b < 0 ? -u64(b) : u64(b), &r); return (long long)(a < 0 ? -r : r); }
    int __popcountdi2(u64 a) { int n = 0; for (; a; a &= a - 1) n++; return n; }
    int __popcountsi2(u32 a) { return __popcountdi2(a); }
    size_t strlen(const char* s) { size_t n = 0; while (((const volatile char*)s)[n]) n++; return n; }
    void __cxa_pure_virtual() { quit(90); }
    void* __gxx_personality_v0;
    void _Unwind_Resume(void*) { quit(91); }
    void __cxa_begin_catch(void*) { quit(92); }
    void __stack_chk_fail() { quit(93); }
    int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
    void* __dso_handle;
}
alignas(16) static u8 arena[1 << 20];   // what constant evaluation takes; run time must not
static size_t arena_used;
static void* take(size_t n)
{
#ifndef ALLOCATES
    quit(87);
#endif
    if (n > sizeof arena - 16 - arena_used) quit(88);
    void* r = arena + arena_used;
    arena_used += n + 15 & ~15u;
    return r;
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void*) noexcept {}
void operator delete(void*, size_t) noexcept {}
void operator delete[](void*) noexcept {}
void operator delete[](void*, size_t) noexcept {}
namespace std { [[noreturn]] void terminate() noexcept { quit(94); } }

static void get(void* p, size_t n) { while (n) { long r = sys(3, 0, long(p), long(n)); if (r <= 0) quit(0); p = (u8*)p + r, n -= size_t(r); } }
static void put(const void* p, size_t n) { while (n) { long r = sys(4, 1, long(p), long(n)); if (r <= 0) quit(0); p = (const u8*)p + r, n -= size_t(r); } }
static u8* map(size_t n)           // between pages that cannot be touched
{
    long r = sys(192, 0, long(n + 8192 & ~4095u) + 4096, 0, 0x4022, -1);
    if (u32(r) > 0xfffff000u) quit(95);
    sys(125, r + 4096, long(n + 4095 & ~4095u), 3);
    return (u8*)r + 4096;
}

#endif
struct Req { u32 op, alg, n, a, nx, ny, nz, nsplit; };
static Req q;
static u8 *x, *y, *z, *out;
static u32 splits[64];
static u32 n_out;
static const size_t room = 1 << 16;
// pieces of an input of n bytes
template<class F> static void pieces(size_t n, F f)
{
    size_t pos = 0;
    for (u32 i = 0; i < q.nsplit && pos < n; i++) { size_t k = splits[i] < n - pos ? splits[i] : n - pos; f(pos, k); pos += k; }
    if (pos < n || !n) f(pos, n - pos);
}
template<class H> static void hash() { H h; h.initialize(); pieces(q.nx, [&](size_t p, size_t n) { h.update(x + p, n); }); h.finalize(); n_out = h.digest(out, q.n); }
template<class H> static void hmac() { mp::mac::hmac<H> h; h.initialize(y, q.ny); pieces(q.nx, [&](size_t p, size_t n) { h.update(x + p, n); }); h.finalize(); n_out = h.digest(out, q.n); }
template<class H> static void hkdf() { mp::kdf::hkdf<mp::mac::hmac<H>> k; k.initialize(x, q.nx, y, q.ny, z, q.nz); n_out = 0; pieces(q.n, [&](size_t p, size_t n) { n_out += k.derive(out + p, n); }); }
template<class H> static void pbkdf() { mp::kdf::pbkdf_2<mp::mac::hmac<H>> k; k.initialize(x, q.nx, y, q.ny, size_t(q.a)); n_out = 0; pieces(q.n, [&](size_t p, size_t n) { n_out += k.derive(out + p, n); }); }
static void poly() { mp::mac::poly_1305<> h; h.initialize(y, q.ny); pieces(q.nx, [&](size_t p, size_t n) { h.update(x + p, n); }); h.finalize(); n_out = h.digest(out, q.n); }
static void chacha()
{
    mp::cipher::chacha_20<> c;
    c.initialize(y, q.ny, z, q.nz);
    pieces(q.nx, [&](size_t p, size_t n) { if (q.a) c.decrypt(x + p, n, out + p); else c.encrypt(x + p, n, out + p); });
    n_out = q.nx;
}
static void aead()              // x: q.n bytes of associated data, and text
{
    mp::aead::chacha_20_poly_1305<> c;
    c.initialize(y, q.ny, z, q.nz);
    pieces(q.n, [&](size_t p, size_t n) { c.aad(x + p, n); });
    size_t m = q.nx - q.n;
    pieces(m, [&](size_t p, size_t n) { if (q.a) c.decrypt(x + q.n + p, n, out + p); else c.encrypt(x + q.n + p, n, out + p); });
    c.finalize();
    n_out = m + c.digest(out + m, 16);
}
template<class C> static void codec()
{
    if (q.op == 6) { n_out = C::encode(x, size_t(q.nx), out); return; }
    milo::error error;
    size_t size = C::decode(x, size_t(q.nx), out + 1, error);
    out[0] = bool(error);
    n_out = 1 + size;
}
#ifndef HOSTED
// two gibibytes, zero until they are needed for something else
static u8* region()
{
    static u8* base;
    if (base) return base;
    long r = sys(192, 0, long(0x80000000u), 3, 0x4022, -1);
    if (u32(r) > 0xfffff000u) quit(96);
    return base = (u8*)r;
}
template<class C> static void sizes()   // q.n bytes, the last of them in x
{
    u8* zero = region();
    u8 old[8];
    size_t k = q.nx < q.n ? q.nx : q.n;
    if (k > 8) k = 8;
    memcpy(old, zero + q.n - k, k);
    memcpy(zero + q.n - k, x + q.nx - k, k);
    u32 r = q.a ? C::decode_size(zero, size_t(q.n)) : C::encode_size(zero, size_t(q.n));
    memcpy(zero + q.n - k, old, k);
    memcpy(out, &r, 4);
    n_out = 4;
}
// mebibytes of the same pages, as in lib/huge.h
static u8* huge_in()
{
    static u8* base;
    if (base) return base;
    const size_t mb = 1 << 20;
    long fd = sys(356, long("w32"), 0);
    if (fd < 0 || sys(93, fd, mb) < 0) quit(97);
    u8* r = region();
    for (size_t o = 0; o < 0x7ff00000u; o += mb)
    {
        struct { u32 addr, len, prot, flags, fd, off; } m{u32(r) + o, mb, 3, 0x11, u32(fd), 0};
        if (u32(sys(90, long(&m))) > 0xfffff000u) quit(99);
    }
    base = r;
    for (size_t i = 0; i < mb; i++) base[i] = u8(i * 131 + (i >> 8) * 29 + (i >> 16) * 5 + 7);
    return base;
}
// a message of q.a * 2^32 + q.n bytes of it
template<class F> static void huge_pieces(F f)
{
    u64 left = (u64(q.a) << 32) + q.n, pos = 0;
    const u8* p = huge_in();
    for (u32 i = 0; left; i++)
    {
        u64 most = 0x7ff00000u - (pos & 0xfffff), want = i < q.nsplit ? splits[i] : most;
        size_t k = size_t(want < left ? want < most ? want : most : left < most ? left : most);
        f(p + (pos & 0xfffff), k);
        pos += k, left -= k;
    }
}
template<class H> static void huge_hash() { H h; h.initialize(); huge_pieces([&](const u8* p, size_t n) { h.update(p, n); }); h.finalize(); n_out = h.digest(out, 64); }
static void huge_poly() { mp::mac::poly_1305<> h; h.initialize(y, q.ny); huge_pieces([&](const u8* p, size_t n) { h.update(p, n); }); h.finalize(); n_out = h.digest(out, 16); }
static void huge_aad() { mp::aead::chacha_20_poly_1305<> c; c.initialize(y, q.ny, z, q.nz); huge_pieces([&](const u8* p, size_t n) { c.aad(p, n); }); c.finalize(); n_out = c.digest(out, 16); }
static void huge_text()
{
    static u8* o = nullptr;
    if (!o) o = map(1 << 20);
    mp::aead::chacha_20_poly_1305<> c;
    c.initialize(y, q.ny, z, q.nz);
    huge_pieces([&](const u8* p, size_t n) { while (n) { size_t k = n < (1 << 20) ? n : 1 << 20; if (q.alg == 2) c.decrypt(p, k, o); else c.encrypt(p, k, o); p += k, n -= k; } });
    c.finalize();
    n_out = c.digest(out, 16);
}
#endif
#ifdef RICH
#include <array>
#include <span>
#include <string>
#include <tuple>
#include <vector>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/mac/apie.h>
// the other call forms; q.a % 3 is the byte type
template<class T, class H> struct Forms
{
    using V = std::vector<T>;
    static std::span<const T> in(const u8* p, size_t n) { return {(const T*)p, n}; }
    static void give(const auto& v) { for (auto b: v) out[n_out++] = u8(b); }
    static void hash()
    {
        give(mp::hash::digest<H, V>(in(x, q.nx), size_t(q.n)));
        mp::hash::apie<H> a;
        pieces(q.nx, [&](size_t p, size_t n) { a.update(in(x + p, n)); });
        give(mp::hash::apie<H>(a).template digest<std::array<T, H::digest_size>>());
        V v(3);
        a.digest(v), give(v);
    }
    template<class M> static void mac()
    {
        give(mp::mac::digest<M, V>(in(y, q.ny), in(x, q.nx), size_t(q.n)));
        mp::mac::apie<M> a(in(y, q.ny));
        pieces(q.nx, [&](size_t p, size_t n) { a.update(in(x + p, n)); });
        auto b = a;
        give(b.template digest<std::array<T, M::digest_size>>());
        V v(3);
        a.digest(v), give(v);
    }
    static void hmac() { mac<mp::mac::hmac<H>>(); }
    static void hkdf()
    {
        using K = mp::kdf::hkdf<mp::mac::hmac<H>>;
        give(mp::kdf::derive<K, V>(in(x, q.nx), in(y, q.ny), in(z, q.nz), size_t(q.n)));
        mp::kdf::apie<K> a(in(x, q.nx), in(y, q.ny), in(z, q.nz));
        pieces(q.n, [&](size_t, size_t n) { give(a.template derive<V>(n)); });
    }
    static void pbkdf()
    {
        using K = mp::kdf::pbkdf_2<mp::mac::hmac<H>>;
        give(mp::kdf::derive<K, V>(in(x, q.nx), in(y, q.ny), size_t(q.a / 3), size_t(q.n)));
        mp::kdf::apie<K> a(in(x, q.nx), in(y, q.ny), size_t(q.a / 3));
        pieces(q.n, [&](size_t, size_t n) { give(a.template derive<V>(n)); });
    }
    static void poly() { mac<mp::mac::poly_1305<>>(); }
    static void chacha()
    {
        using C = mp::cipher::chacha_20<>;
        auto k = in(y, q.ny), v = in(z, q.nz), i = in(x, q.nx);
        give(q.alg ? mp::cipher::decrypt<C, V>(k, v, i) : mp::cipher::encrypt<C, V>(k, v, i));
        mp::cipher::apie<C> a(k, v);
        pieces(q.nx, [&](size_t p, size_t n) { give(q.alg ? a.template decrypt<V>(in(x + p, n)) : a.template encrypt<V>(in(x + p, n))); });
    }
    static void seal()              // x: q.n bytes of associated data, and text
    {
        using C = mp::aead::chacha_20_poly_1305<>;
        auto k = in(y, q.ny), v = in(z, q.nz), ad = in(x, q.n), i = in(x + q.n, q.nx - q.n);
        auto [c, t] = mp::aead::encrypt<C, V>(k, v, ad, i);
        give(c), give(t);
        mp::aead::apie<C> a(k, v);
        pieces(ad.size(), [&](size_t p, size_t n) { a.aad(ad.subspan(p, n)); });
        pieces(i.size(), [&](size_t p, size_t n) { give(a.template encrypt<V>(i.subspan(p, n))); });
        give(a.template digest<V>(16));
    }
    static void open()              // and 16 bytes of tag
    {
        using C = mp::aead::chacha_20_poly_1305<>;
        auto k = in(y, q.ny), v = in(z, q.nz), ad = in(x, q.n), i = in(x + q.n, q.nx - q.n - 16), t = in(x + q.nx - 16, 16);
        milo::error e;
        V r(3);
        mp::aead::decrypt<C>(k, v, ad, i, t, r, e);
        out[n_out++] = bool(e);
        if (!e) give(r);
#if __cpp_exceptions
        try { auto w = mp::aead::decrypt<C, V>(k, v, ad, i, t); out[n_out++] = 0; give(w); }
        catch (const milo::error& f) { out[n_out++] = f == milo::error::aead_verify ? 1 : 9; }
#else
        mp::aead::apie<C> a(k, v);
        a.aad(ad);
        V w(i.size());
        a.decrypt(i.data(), i.size(), w.data());
        a.verify(t, e);
        out[n_out++] = bool(e);
        if (!e) give(w);
#endif
    }
    template<class D> static void encode() { give(mp::codec::encode<D, V>(in(x, q.nx))); give(mp::codec::encode<D, std::string>(in(x, q.nx))); }
    template<class D> static void decode()
    {
        milo::error e;
        V r(3);
        mp::codec::decode<D>(in(x, q.nx), r, e);
        out[n_out++] = bool(e);
        if (!e) give(r);
#if __cpp_exceptions
        try { auto w = mp::codec::decode<D, std::string>(in(x, q.nx)); out[n_out++] = 0; give(w); }
        catch (const milo::error& f) { out[n_out++] = f == milo::error::codec_base_16_decode || f == milo::error::codec_base_64_decode ? 1 : 9; }
#else
        std::string w;
        mp::codec::decode<D>(in(x, q.nx), w, e);
        out[n_out++] = bool(e);
        if (!e) give(w);
#endif
    }
};
template<class T, class H> static void rich()
{
    using F = Forms<T, H>;
    switch (q.op)
    {
    case 11: F::hash(); break;
    case 12: F::hmac(); break;
    case 13: F::hkdf(); break;
    case 14: F::pbkdf(); break;
    }
}
template<class T> static void rich_other()
{
    using F = Forms<T, void>;
    switch (q.op)
    {
    case 15: F::poly(); break;
    case 16: F::chacha(); break;
    case 17: F::seal(); break;
    case 18: F::open(); break;
    case 19: if (q.alg) F::template encode<mp::codec::base_64<>>(); else F::template encode<mp::codec::base_16<>>(); break;
    case 20: if (q.alg) F::template decode<mp::codec::base_64<>>(); else F::template decode<mp::codec::base_16<>>(); break;
    }
}
// one byte type for each hash is enough to compile (BYTES: which)
template<size_t i> using byte_at = std::tuple_element_t<i % 3, std::tuple<char, u8, signed char>>;
template<class H> static void rich_hash() { rich<byte_at<H::digest_size / 4 + H::block_size / 64 + BYTES>, H>(); }
#endif
#define ALGS(f) { case 0: f<mp::hash::sha_1_160<>>(); break; case 1: f<mp::hash::sha_2_224<>>(); break; case 2: f<mp::hash::sha_2_256<>>(); break; case 3: f<mp::hash::sha_2_384<>>(); break; \
    case 4: f<mp::hash::sha_2_512<>>(); break; case 5: f<mp::hash::sha_2_512_224<>>(); break; case 6: f<mp::hash::sha_2_512_256<>>(); break; }
static void run()
{
    u8* mx = map(room);
    u8* my = map(room);
    u8* mz = map(room);
    u8* mo = map(room);
    for (;;)
    {
        get(&q, sizeof q);
        if (q.nx > room || q.ny > room || q.nz > room || q.nsplit > 64) quit(89);
        x = mx + room - q.nx, y = my + room - q.ny, z = mz + room - q.nz;       // ends where memory ends
        get(x, q.nx), get(y, q.ny), get(z, q.nz), get(splits, 4 * q.nsplit);
        out = mo;
        memset(out, 0x5a, 4096);
        n_out = 0;
#ifndef HOSTED
        arena_used = 0;
#endif
        switch (q.op)
        {
        case 0: switch (q.alg) ALGS(hash) break;
        case 1: switch (q.alg) ALGS(hmac) break;
        case 2: switch (q.alg) ALGS(hkdf) break;
        case 3: switch (q.alg) ALGS(pbkdf) break;
        case 4: q.alg == 0 ? poly() : q.alg == 1 ? chacha() : aead(); break;
        case 6: case 7: if (q.alg) codec<mp::codec::base_64<>>(); else codec<mp::codec::base_16<>>(); break;
#ifdef RICH
        case 11: case 12: case 13: case 14: switch (q.alg) ALGS(rich_hash) break;
        case 15: case 16: case 17: case 18: case 19: case 20: q.a % 3 == 0 ? rich_other<char>() : q.a % 3 == 1 ? rich_other<u8>() : rich_other<signed char>(); break;
#endif
#ifndef HOSTED
        case 8: if (q.alg) sizes<mp::codec::base_64<>>(); else sizes<mp::codec::base_16<>>(); break;
        case 9: switch (q.alg) ALGS(huge_hash) break;
        case 10: q.alg == 0 ? huge_poly() : q.alg == 1 ? huge_aad() : huge_text(); break;
#endif
        }
        if (n_out > room) quit(88);
        if (q.op <= 6) for (u32 i = n_out; i < 4096 && i < n_out + 256; i++) if (out[i] != 0x5a) quit(85);
        put(&n_out, 4);
        put(out, n_out);
    }
}
#ifdef HOSTED
int main() { run(); }
#else
extern "C" void (*__init_array_start[])() __attribute__((weak));
extern "C" void (*__init_array_end[])() __attribute__((weak));
extern "C" __attribute__((used, force_align_arg_pointer)) void w32_main()
{
    for (auto p = __init_array_start; p < __init_array_end; p++) (*p)();
    run();
}
__asm__(".globl _start\n_start: xor %ebp, %ebp\n and $-16, %esp\n call w32_main\n hlt\n");
#endif
