// Buffers with exact bounds, variants of the library's algorithms, splitting of inputs.
#pragma once
#include "pbt.h"
#include "ref.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define H_ASAN 1
#else
#define H_ASAN 0
#endif

namespace h
{
    using pbt::Src;
    using pbt::Ctx;
    using pbt::bytes;
    using u8 = std::uint8_t;
    using u32 = std::uint32_t;
    using u64 = std::uint64_t;

    inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
    inline std::string fmt(const char* f, ...)
    {
        char b[2048];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        return b;
    }

    inline bytes prefix(const bytes& b, size_t n) { return bytes(b.begin(), b.begin() + std::min(n, b.size())); }
    inline bytes cat(const bytes& a, const bytes& b)
    {
        bytes r = a;
        r.insert(r.end(), b.begin(), b.end());
        return r;
    }

#ifdef H_GUARD
    // Two views of the same pages, each between inaccessible pages; one of them cannot be written.
    struct Arena
    {
        static constexpr size_t cap = 96 * 1024, page = 4096;
        u8 *ro, *rw;
        static Arena* get()
        {
            static std::vector<Arena*> pool;
            static pid_t owner;
            if (owner != getpid()) pool.clear(), owner = getpid();
            if (pool.empty())
            {
                int fd = memfd_create("arena", 0);
                if (fd < 0 || ftruncate(fd, cap)) { perror("memfd"); _exit(99); }
                auto view = [&](int prot) {
                    u8* b = (u8*)mmap(nullptr, cap + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                    if (b == MAP_FAILED || mmap(b + page, cap, prot, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(99); }
                    return b + page;
                };
                Arena* a = new Arena{view(PROT_READ), view(PROT_READ | PROT_WRITE)};
                close(fd);
                pool.push_back(a);
            }
            Arena* a = pool.back();
            pool.pop_back();
            the_pool = &pool;
            return a;
        }
        static inline std::vector<Arena*>* the_pool;
        static void put(Arena* a) { the_pool->push_back(a); }
    };
    // n bytes which end or start at an inaccessible page; inputs are in pages which cannot be written
    class Mem
    {
    public:
        u8 *p, *w;
        size_t n;
        Mem(Src& s, size_t n_, bool in = false) : n(n_), a(Arena::get())
        {
            if (n > Arena::cap) { fprintf(stderr, "arena too small\n"); _exit(99); }
            u64 k = s.below(4);
            off = k == 3 ? 0 : Arena::cap - n;
            w = a->rw + off;
            p = (in ? a->ro : a->rw) + off;
            lo = std::min<size_t>(off, 80), hi = std::min<size_t>(Arena::cap - off - n, 80);
            memset(w - lo, 0xC7, lo);
            memset(w + n, 0xC9, hi);
            if (n == 0 && k == 1) p = nullptr;
        }
        Mem(const Mem&) = delete;
        Mem& operator=(const Mem&) = delete;
        ~Mem() { Arena::put(a); }
        bool fences() const
        {
            for (size_t i = 0; i < lo; i++) if (w[-1 - (long)i] != 0xC7) return false;
            for (size_t i = 0; i < hi; i++) if (w[n + i] != 0xC9) return false;
            return true;
        }
    private:
        Arena* a;
        size_t off, lo, hi;
    };
#else
    // Raw memory of n bytes whose ends are watched: canaries, or inaccessible pages, or ASan.
    class Mem
    {
    public:
        u8 *p = nullptr, *w = nullptr;
        size_t n = 0;
        Mem(Src& s, size_t n_, bool = false) : n(n_)
        {
            u64 k = s.below(8);
            size_t page = 4096;
            if (k >= 6 && n <= (64u << 20))
            {
                body = (n + page - 1) / page * page;
                if (!body) body = page;
                total = body + 2 * page;
                base = (u8*)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                if (base == MAP_FAILED) { perror("mmap"); _exit(99); }
                mprotect(base, page, PROT_NONE);
                mprotect(base + page + body, page, PROT_NONE);
                guard = true;
                p = k == 6 ? base + page + body - n : base + page;
                slack_lo = p - (base + page);
                slack_hi = base + page + body - (p + n);
                if (slack_lo > 64) slack_lo = 64;
                if (slack_hi > 64) slack_hi = 64;
            }
            else
            {
                size_t off = k == 0 ? 0 : 1 + s.below(64);
                slack_lo = off;
                slack_hi = H_ASAN ? 0 : 64;
                size_t pad = 64;
                total = pad + off + n + slack_hi;
                if (H_ASAN)
                {
                    pad = 0;
                    total = off + n;
                }
                base = (u8*)malloc(total ? total : 1);
                if (!base) { perror("malloc"); _exit(99); }
                u8* a = base;
                if (!H_ASAN) a = (u8*)((std::uintptr_t(base) + 63) & ~std::uintptr_t(63));
                p = a + off;
                if (!H_ASAN) slack_hi = base + total - (p + n) < 64 ? size_t(base + total - (p + n)) : 64;
            }
            memset(p - slack_lo, 0xC7, slack_lo);
            memset(p + n, 0xC9, slack_hi);
            w = p;
#ifdef H_NULL
            if (n == 0 && k == 1) p = nullptr;
#endif
        }
        Mem(const Mem&) = delete;
        Mem& operator=(const Mem&) = delete;
        ~Mem()
        {
            if (guard) munmap(base, total);
            else free(base);
        }
        bool fences() const
        {
            for (size_t i = 0; i < slack_lo; i++) if (w[-1 - (long)i] != 0xC7) return false;
            for (size_t i = 0; i < slack_hi; i++) if (w[n + i] != 0xC9) return false;
            return true;
        }
    private:
        u8* base = nullptr;
        size_t total = 0, body = 0, slack_lo = 0, slack_hi = 0;
        bool guard = false;
    };
#endif

    template<class B> struct In
    {
        Mem m;
        bytes orig;
        const B* p;
        size_t n;
        In(Src& s, const bytes& b) : m(s, b.size(), true), orig(b), p((const B*)m.p), n(b.size())
        {
            if (n) memcpy(m.w, b.data(), n);
        }
        void check(const char* what) const
        {
            if (n && memcmp(m.p, orig.data(), n)) pbt::fail("input-modified", std::string("input modified: ") + what);
            if (!m.fences()) pbt::fail("outside-write", std::string("memory around an input written: ") + what);
        }
    };

    template<class B> struct Out
    {
        Mem m;
        B* p;
        size_t n;
        static u8 fill(size_t i) { return u8(0x5a ^ (i * 37)); }
        Out(Src& s, size_t n_) : m(s, n_), p((B*)m.p), n(n_)
        {
            for (size_t i = 0; i < n; i++) m.p[i] = fill(i);
        }
        bytes get(size_t k) const { return bytes(m.p, m.p + std::min(k, n)); }
        // bytes at and after `written`, and around the buffer, are as before
        void check(const char* what, size_t written) const
        {
            for (size_t i = written; i < n; i++)
                if (m.p[i] != fill(i)) pbt::fail("beyond-result", fmt("byte %zu of the output written, only %zu reported: %s", i, written, what));
            if (!m.fences()) pbt::fail("outside-write", std::string("memory around the output written: ") + what);
        }
    };

    // a contiguous container of the user's own, with nothing but what the library documents
    template<class B> struct Own
    {
        using value_type = B;
        B* ptr = nullptr;
        size_t len = 0;
        B* data() noexcept { return ptr; }
        const B* data() const noexcept { return ptr; }
        size_t size() const noexcept { return len; }
    };

    // sizes of the pieces an input of n bytes is fed in; sums to n
    inline std::vector<size_t> split(Src& s, size_t n, size_t block)
    {
        std::vector<size_t> r;
        u64 style = s.below(8);
        auto rest = n;
        auto put = [&](size_t k) { if (k > rest) k = rest; r.push_back(k); rest -= k; };
        switch (style)
        {
        case 0: put(n); break;
        case 1: put(s.below(n + 1)); put(rest); break;
        case 2: put(s.below(2 * block + 2)); put(rest); break;
        case 3:                                     // constant small piece
        {
            size_t k = 1 + s.below(2 * block);
            while (rest && r.size() < 200) put(k);
            if (rest) put(rest);
            break;
        }
        case 4:                                     // pieces around block multiples
            for (size_t i = 0, m = 1 + s.below(6); i < m && rest; i++)
            {
                size_t k = s.below(20) * block + s.below(5);
                put(k >= 2 ? k - 2 : k);
            }
            put(rest);
            break;
        case 5:                                     // small, with empty pieces
            for (size_t i = 0, m = 1 + s.below(24); i < m && rest; i++) put(s.below(4) == 0 ? 0 : s.below(24));
            put(rest);
            put(0);
            break;
        default:
            for (size_t i = 0, m = 1 + s.below(10); i < m && rest; i++) put(s.size(n, block));
            put(rest);
        }
        return r;
    }
    inline std::string show(const std::vector<size_t>& v)
    {
        std::string r = "[";
        for (size_t i = 0; i < v.size() && i < 24; i++) r += (i ? "," : "") + std::to_string(v[i]);
        return r + (v.size() > 24 ? ",...]" : "]");
    }

    // message lengths: forced by a grid (selector 0) or drawn
    inline size_t length(Src& s, size_t max, size_t block)
    {
        return s.below(2) == 0 ? s.below(4096) % (max + 1) : s.size(max, block);
    }

    // sizes next to powers of two, where a counter of some width would overflow: from 2^8 - 2 on
    constexpr size_t wide_kinds = 5;
    inline size_t wide(size_t i) { return (size_t(256) << i / wide_kinds) + i % wide_kinds - 2; }
    inline size_t wide_count(bool thorough) { return (thorough ? 13 : 11) * wide_kinds; }     // to 2^18, 2^20
    inline size_t wide(Src& s, Ctx&) { size_t i = s.below(15 * wide_kinds), e = s.below(8); return wide(i) + (e == 7 ? s.below(5000) : 0); }

    inline bool cpu(const char* f)
    {
        unsigned a = 7, b, c = 0, d;
        __asm__ volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d));
        unsigned a1 = 1, b1, c1 = 0, d1;
        __asm__ volatile("cpuid" : "+a"(a1), "=b"(b1), "+c"(c1), "=d"(d1));
        bool os = c1 & (1u << 27);
        bool ymm = false;
        if (os)
        {
            unsigned lo, hi;
            __asm__ volatile("xgetbv" : "=a"(lo), "=d"(hi) : "c"(0));
            ymm = (lo & 6) == 6;
        }
        if (!strcmp(f, "ssse3")) return c1 & (1u << 9);
        if (!strcmp(f, "sse41")) return c1 & (1u << 19);
        if (!strcmp(f, "avx2")) return ymm && (b & (1u << 5));
        if (!strcmp(f, "sha")) return (b & (1u << 29)) && (c1 & (1u << 19)) && (c1 & (1u << 9));
        return true;
    }
}
