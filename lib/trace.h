// Which instructions of this executable a call runs: the processor is single-stepped, shared
// libraries (memory management, unwinding) are stepped over unrecorded.
#pragma once
#include <algorithm>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <sys/mman.h>
#include <ucontext.h>

extern "C" char __executable_start, etext;
namespace trace
{
    using u32 = std::uint32_t;
    using u64 = std::uint64_t;
    struct Log
    {
        static constexpr size_t cap = size_t(1) << 24;
        u32* at = nullptr;      // offsets of the instructions
        u64 n = 0, hash = 0;
        void reset()
        {
            if (!at) at = (u32*)mmap(nullptr, cap * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (at == MAP_FAILED) { perror("mmap"); _exit(99); }
            n = 0;
            hash = 1;
        }
        bool operator==(const Log& o) const { return n == o.n && hash == o.hash && !memcmp(at, o.at, (n < cap ? n : cap) * 4); }
    };
    inline Log* volatile cur;
    inline u64 lo, hi, thrown;
    // the symbols may be taken over by the executable: only what an allocation of an exception starts ends a trace
    __attribute__((target("general-regs-only"))) inline void step(int, siginfo_t*, void* p)
    {
        auto& r = ((ucontext_t*)p)->uc_mcontext.gregs;
        u64 ip = u64(r[REG_RIP]);
        Log* l = cur;
        if (ip == thrown || !l) { r[REG_EFL] &= ~0x100ll; return; }
        if (ip - lo >= hi - lo) return;
        u32 x = u32(ip - lo);
        if (l->n < Log::cap) l->at[l->n] = x;
        l->n++;
        l->hash = (l->hash ^ x) * 0x9E3779B97F4A7C15u;
    }
    __attribute__((noinline)) inline void begin() { __asm__ volatile("lea -128(%%rsp), %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tlea 128(%%rsp), %%rsp" : : : "memory", "cc"); }
    __attribute__((noinline)) inline void end() { __asm__ volatile("lea -128(%%rsp), %%rsp\n\tpushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq\n\tlea 128(%%rsp), %%rsp" : : : "memory", "cc"); }
    // f() must not let an exception out
    template<class F> void record(Log& l, F f)
    {
        l.reset();
        if (!hi)
        {
            lo = u64(&__executable_start);
            thrown = u64(dlsym(RTLD_DEFAULT, "__cxa_allocate_exception"));
            hi = u64(&etext);
        }
        struct sigaction sa{}, old;
        sa.sa_sigaction = step;
        sa.sa_flags = SA_SIGINFO;
        sigaction(SIGTRAP, &sa, &old);
        cur = &l;
        begin();
        f();
        end();
        cur = nullptr;
        sigaction(SIGTRAP, &old, nullptr);
    }
    inline std::string difference(const Log& a, const Log& b)
    {
        u64 i = 0, m = std::min({a.n, b.n, u64(Log::cap)});
        while (i < m && a.at[i] == b.at[i]) i++;
        char t[160];
        snprintf(t, sizeof t, "%llu and %llu instructions, apart after %llu, at executable offset 0x%x", (unsigned long long)a.n, (unsigned long long)b.n, (unsigned long long)i, i ? a.at[i - 1] : 0);
        return t;
    }
}
