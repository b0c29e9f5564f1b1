// C15: results do not depend on the CPU and only supported code runs (see lib/cpusim.h).
#include "../lib/drv.h"
#include "../lib/cpusim.h"

struct Work { const char* name; void (*run)(Src&, Ctx&); };
template<class T, ref::Alg A> static void w_hash(Src& s, Ctx& c) { bytes m = s.content(s.size(2000, 64)); want_prefix("result", hash_once<T, u8>(s, c, m), ref::hash(A, m), "hash"); }
template<class T, ref::Alg A> static void w_hmac(Src& s, Ctx& c) { bytes k = s.content(s.size(200, 64)), m = s.content(s.size(1500, 64)); want_prefix("result", mac_once<T, u8>(s, c, k, m, 64), ref::hmac(A, k, m), "hmac"); }
template<class T, ref::Alg A> static void w_hkdf(Src& s, Ctx& c) { bytes i = s.content(s.below(100)), t = s.content(s.below(100)), f = s.content(s.below(100)); size_t n = s.below(150); pbt::same("result", hkdf_once<T, u8>(s, c, i, t, f, n), ref::hkdf(A, i, t, f, n), "hkdf"); }
template<class T, ref::Alg A> static void w_pbkdf(Src& s, Ctx& c) { bytes i = s.content(s.below(100)), t = s.content(s.below(100)); size_t n = s.below(100), it = 1 + s.below(3); pbt::same("result", pbkdf_once<T, u8>(s, c, i, t, it, n), ref::pbkdf2(A, i, t, it, n), "pbkdf2"); }
static void w_poly(Src& s, Ctx& c) { bytes k = s.content(32), m = s.content(s.size(1000, 16)); want_prefix("result", mac_once<mp::mac_poly_1305, u8>(s, c, k, m, 16), ref::poly1305(k.data(), m), "poly1305"); }
static void w_chacha(Src& s, Ctx& c)
{
    bytes k = s.content(32), v = s.content(16), m = s.content(s.size(4000, 64));
    u32 n;
    memcpy(&n, v.data(), 4);
    pbt::same("result", cipher_once<mp::cipher_chacha_20, u8>(s, c, k, v, m, s.below(2)), ref::chacha20(k.data(), v.data() + 4, n, m), "chacha20");
}
static void w_aead(Src& s, Ctx& c)
{
    bytes k = s.content(32), v = s.content(12), a = s.content(s.below(100)), m = s.content(s.size(3000, 64));
    auto r = aead_once<mp::aead_chacha_20_poly_1305, u8>(s, c, k, v, a, m, false);
    bytes ct = ref::chacha20(k.data(), v.data(), 1, m);
    pbt::same("result", r.text, ct, "aead ciphertext");
    want_prefix("result", r.tag, ref::aead_tag(k.data(), v.data(), a, ct), "aead tag");
}
#define A7(w, pre) \
    {#pre "sha1", w<mp::pre##sha_1_160, ref::sha1>}, {#pre "sha224", w<mp::pre##sha_2_224, ref::sha224>}, {#pre "sha256", w<mp::pre##sha_2_256, ref::sha256>}, \
    {#pre "sha384", w<mp::pre##sha_2_384, ref::sha384>}, {#pre "sha512", w<mp::pre##sha_2_512, ref::sha512>}, \
    {#pre "sha512_224", w<mp::pre##sha_2_512_224, ref::sha512_224>}, {#pre "sha512_256", w<mp::pre##sha_2_512_256, ref::sha512_256>},
static const Work works[] = {
    A7(w_hash, hash_) A7(w_hmac, mac_hmac_) A7(w_hkdf, kdf_hkdf_hmac_) A7(w_pbkdf, kdf_pbkdf_2_hmac_)
    {"poly1305", w_poly}, {"chacha20", w_chacha}, {"aead", w_aead}, {"chacha20", w_chacha}, {"aead", w_aead}, {"chacha20", w_chacha}};
static const size_t nw = sizeof works / sizeof *works;
static int child()
{
    Src s;
    s.rng = pbt::Rng(me.seed);
    Ctx c;
    size_t first = s.below(nw);
    for (u64 i = 0; i < me.ops; i++)
    {
        const Work& w = works[(first + i * 7) % nw];
        try { w.run(s, c); }
        catch (const pbt::Fail& f) { printf("\n!%s: %s\n", w.name, f.msg.c_str()); fflush(stdout); _exit(3); }
    }
    printf("cpuids %lu\n", cpuids);
    fflush(stdout);
    return 0;
}

static void judge(Ctx& c, const Cpu& k)
{
    describe(c, k);
    std::string out;
    if (run_child(k, out))
    {
        if (out.find("cpuids 0\n") == std::string::npos) c.label("queried");
        return;
    }
    size_t at = out.find('!');
    std::string m = at == std::string::npos ? out : out.substr(at + 1);
    while (!m.empty() && m.back() == '\n') m.pop_back();
    bool un = m.compare(0, 11, "unsupported") == 0;
    pbt::fail(un ? "unsupported" : "result", (un ? "on the drawn CPU: " : "wrong result on the drawn CPU: ") + m);
}
static void one(Src& s, Ctx& c)
{
    u64 bits = s.below(1 << 9);
    Cpu k = draw_cpu(s, bits);
    k.seed = s.below(100000);
    k.ops = 1 + s.below(nw + 20);
    if (s.below(2)) k.ops = nw;
    c.nontrivial = true;
    judge(c, k);
}
PBT_TEST("cpus", one, 9000, 150000, [](bool t) { return size_t(512 * (t ? 40 : 4)); }, [](size_t i, bool) { return std::vector<u64>{i % 512}; }, 0, 0,
         "a CPU and operating system (grid: every combination of sse3, ssse3, sse4, osxsave, avx, avx2, sha, enabled vector state and the maximum leaf reaching 7; the rest of the feature words, answers of leaves above the maximum and higher leaves drawn) and a workload over all default algorithms in a process of its own: results must equal the reference and no instruction of an unreported feature may execute; all non-trivial");

