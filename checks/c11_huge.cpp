// C11, C12: bytes and texts above 2^32.  Inputs are periodic, so are the outputs; both are mapped
// over and over onto one period, where the last writer must have left what every writer wrote.
#include "../lib/codec.h"
#include "../lib/huge.h"
using namespace codec;
#if CODEC == 16
using T = mp::codec_base_16;
static const size_t bper = huge::MB, tper = 2 * huge::MB, unit = 1;
static std::string text(const bytes& b) { return ref::base16(b); }
static const error::code code = error::codec_base_16_decode;
#else
using T = mp::codec_base_64;
static const size_t bper = 3 * huge::MB, tper = 4 * huge::MB, unit = 3;
static std::string text(const bytes& b) { return ref::base64(b); }
static const error::code code = error::codec_base_64_decode;
#endif
static const size_t most = (size_t(1) << 32) + 9 * huge::MB;
static bytes period() { bytes b(bper); for (size_t i = 0; i < bper; i++) b[i] = huge::at(i); return b; }
static std::string lower(std::string s) { if (CODEC == 16) for (auto& c: s) c = char(tolower(c)); return s; }
static size_t chars(size_t n) { return CODEC == 16 ? 2 * n : (n + 2) / 3 * 4; }

static void big(Src& s, Ctx& c)
{
    u64 op = s.below(3);
    bytes p = period();
    std::string t = text(p);
    u8 *b = huge::region(false, most, bper), *x = huge::region(false, most * 2, tper);
    c.nontrivial = true;
    if (op == 0)
    {
        size_t n = (size_t(1) << 32) + s.below(8 * huge::MB);
        c.note("encode %zu bytes", n);
        memcpy(b, p.data(), bper);
        if (mp::codec::apie<T>::encode_size(b, n) != chars(n)) pbt::fail("encode-size", "encode_size of a huge input");
        memset(x, 7, tper);
        size_t r = mp::codec::encode<T>(b, n, x);
        if (r != chars(n)) pbt::fail("encode-size", fmt("%zu characters for %zu bytes", r, n));
        // the window behind the end still holds the previous period
        size_t full = n / unit * unit;
        std::string w = t, tail;
        size_t at = chars(full) % tper;
        tail = text(bytes(p.begin() + full % bper, p.begin() + full % bper + n % unit));
        for (size_t i = 0; i < tail.size(); i++) w[(at + i) % tper] = tail[i];
        std::string got((char*)x, tper);
        if (lower(got) != lower(w)) pbt::fail("encode", "the encoding of a huge input differs");
    }
    else
    {
        size_t n = (size_t(1) << 32) / 4 * (unit == 3 ? 4 : 2) + s.below(4 * huge::MB) / 8 * 8, m = n / (unit == 3 ? 4 : 2) * unit;
        bool bad = op == 2;
        c.note("decode %zu characters%s", n, bad ? ", one of them foreign" : "");
        memcpy(x, t.data(), tper);
        if (mp::codec::apie<T>::decode_size(x, n) != m) pbt::fail("decode-size", "decode_size of a huge text");
        memset(b, 7, bper);
        u8* end = x + n / 4096 * 4096 - 8192;
        if (bad)
        {
            // the page with the foreign character is its own
            bytes page(end, end + 4096);
            if (mmap(end, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) { perror("mmap"); _exit(99); }
            memcpy(end, page.data(), 4096);
            end[s.below(4096)] = '!';
        }
        error e;
        size_t r = mp::codec::decode<T>(x, n, b, e);
        if (bad)
        {
            if (!(e == code)) pbt::fail("accepted", "a huge text with a foreign character near its end was accepted");
            if (r > m) pbt::fail("error-output", "more bytes than the text can hold");
        }
        else
        {
            if (e) pbt::fail("rejected", "a valid huge text was rejected");
            if (r != m) pbt::fail("decode-size", fmt("%zu bytes for %zu characters", r, n));
            if (memcmp(b, p.data(), bper)) pbt::fail("decode", "the decoding of a huge text differs");
        }
    }
}
PBT_TEST("huge", big, 0, 0, [](bool t) { return size_t(t ? 18 : 3); }, [](size_t i, bool) { return std::vector<u64>{i % 3}; }, 0, 0,
         "bytes and texts above 2^32: encoded, decoded, and decoded with a foreign character near the end; all non-trivial", 600);
