// Inputs above 2^29 and 2^32 bytes: one mebibyte of content mapped again and again.
#pragma once
#include "h.h"
#include <sys/mman.h>

namespace huge
{
    using h::u8;
    constexpr size_t MB = 1u << 20;
    constexpr size_t top = (size_t(1) << 32) + MB;
    inline u8 at(size_t i) { i %= MB; return u8(i * 131 + (i >> 8) * 29 + (i >> 16) * 5 + 7); }

    // a region of `size` bytes or more; every `period` bytes (whole mebibytes) share the same physical pages
    inline u8* region(bool fill, size_t size = top, size_t period = MB)
    {
        int fd = memfd_create("huge", 0);
        if (fd < 0 || ftruncate(fd, period)) { perror("memfd"); _exit(99); }
        u8* base = (u8*)mmap(nullptr, size + 2 * period, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) { perror("mmap"); _exit(99); }
        for (size_t o = 0; o < size; o += period)
            if (mmap(base + o, period, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(99); }
        close(fd);
        if (fill) for (size_t i = 0; i < MB; i++) base[i] = at(i);
        return base;
    }
    inline u8* in() { static u8* p = region(true); return p; }
    inline u8* out() { static u8* p = region(false); return p; }

    constexpr size_t lengths[] = {(size_t(1) << 29) - 9, (size_t(1) << 29) + 5, (size_t(1) << 31) + 3, (size_t(1) << 32) + 77};
    constexpr size_t nlengths = 4;

    // the calls a huge input is fed in: one call, a few huge pieces, or cut near the boundaries
    inline std::vector<size_t> cuts(pbt::Src& s, size_t n)
    {
        switch (s.below(4))
        {
        case 0: return {n};
        case 1: { size_t k = s.below(200); return {k, n - k}; }
        case 2: { size_t k = s.below(200); return {n - k, k}; }
        default:
        {
            size_t a = s.below(n), b = a + s.below(n - a);
            return {a, b - a, n - b};
        }
        }
    }
    inline pbt::bytes key() { pbt::bytes k(32); for (size_t i = 0; i < 32; i++) k[i] = u8(i * 7 + 3); return k; }
}
