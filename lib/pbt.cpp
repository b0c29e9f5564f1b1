#include <cmath>
#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt
{
    void fail(std::string key, std::string msg) { throw Fail{std::move(key), std::move(msg)}; }

    static u64 splitmix(u64& x)
    {
        u64 z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    Rng::Rng(u64 seed) { u64 x = seed; for (auto& v: s) v = splitmix(x); }
    u64 Rng::next()
    {
        auto rotl = [](u64 x, int k) { return (x << k) | (x >> (64 - k)); };
        u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }

    // ---- shared state between a worker and the parent -----------------------------------
    static constexpr size_t max_log = 1 << 14;
    struct Shm
    {
        std::atomic<u64> beat;          // cases started
        std::atomic<u64> status;        // 0 running, 1 done, 2 fail recorded
        u64 idx;                        // current case index inside the phase
        u64 phase;                      // 0 grid 1 random 2 guided
        u64 n;                          // choices logged so far
        u64 log[max_log];
        char key[256];
        char msg[4096];
        char desc[4096];
    };
    static Shm* g_shm = nullptr;

    u64 Src::draw_raw(u64 n)
    {
        u64 v;
        if (in && pos < in->size())
        {
            v = (*in)[pos++];
            if (n) v = v % n;
        }
        else if (mode == Mode::random || mix)
        {
            pos++;
            v = rng.next();
            if (n) v = u64((unsigned __int128)v * n >> 64);
        }
        else
        {
            pos++;
            v = 0;
        }
        log.push_back(v);
        if (!inner && g_shm && g_shm->n < max_log) g_shm->log[g_shm->n++] = v;
        return v;
    }
    u64 Src::below(u64 n) { return n == 1 ? 0 : draw_raw(n); }

    size_t Src::size(size_t max, size_t block)
    {
        // one selector, one value: cheap to shrink and to mutate
        u64 sel = below(8);
        size_t r;
        if (sel == 0) r = below(4);
        else if (sel <= 2) r = below(std::min<size_t>(max, 2 * block + 2) + 1);
        else if (sel <= 4)
        {
            size_t k = below(std::max<size_t>(1, max / block) + 1), d = below(9);
            size_t v = k * block + d;
            r = v >= 4 ? v - 4 : 0;
        }
        else if (sel == 5) r = below(std::min<size_t>(max, 20 * block) + 1);
        else r = below(max + 1);
        return std::min(r, max);
    }

    bytes Src::content(size_t n)
    {
        bytes b(n);
        u64 kind = below(8);
        switch (kind)
        {
        case 0: for (size_t i = 0; i < n; i++) b[i] = u8(i + 1); break;
        case 1: break;
        case 2: std::fill(b.begin(), b.end(), 0xff); break;
        case 3: { u8 v = u8(below(256)); std::fill(b.begin(), b.end(), v); break; }
        case 4: { for (auto& x: b) x = 0x80; break; }
        default:
        {
            Rng r(below(1u << 16) + 77);
            size_t i = 0;
            for (; i + 8 <= n; i += 8) { u64 v = r.next(); memcpy(&b[i], &v, 8); }
            if (i < n) { u64 v = r.next(); memcpy(&b[i], &v, n - i); }
            if (kind == 7) for (size_t j = 0; j < n; j += 3) b[j] = (b[j] & 1) ? 0xff : 0;
        }
        }
        return b;
    }

    static bool g_mirror = false;
    static void copy(char* d, size_t n, const std::string& s);
    void Ctx::note(const char* fmt, ...)
    {
        if (!want_desc || desc.size() > 3000) return;
        char buf[1024];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        desc += buf;
        if (g_mirror) copy(g_shm->desc, sizeof g_shm->desc, desc);      // survives a crash
    }

    std::string hex(const u8* p, size_t n, size_t max)
    {
        static const char* d = "0123456789abcdef";
        std::string s;
        for (size_t i = 0; i < n && i < max; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
        if (n > max) s += "...(" + std::to_string(n) + " bytes)";
        return s;
    }

    void same(const char* key, const bytes& got, const bytes& want, const std::string& what)
    {
        if (got == want) return;
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
        fail(key, what + ": got " + std::to_string(got.size()) + " bytes " + hex(got, 24) + " want " +
                  std::to_string(want.size()) + " bytes " + hex(want, 24) + " first difference at " + std::to_string(i));
    }

    std::vector<Test>& tests() { static std::vector<Test> t; return t; }

    // ---- options -----------------------------------------------------------------------
    static struct
    {
        u64 seed = 1;
        bool thorough = false;
        unsigned workers = 8;
        std::string tmp = ".", out, replay, only, known;
        double scale = 1;
        bool list = false;
    } opt;

    static std::set<std::string> known_keys;

    static u64 mixseed(u64 a, u64 b, u64 c)
    {
        u64 x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15) * 0xbf58476d1ce4e5b9ull ^ (c + 1) * 0x94d049bb133111ebull;
        splitmix(x);
        return splitmix(x);
    }
    static u64 strhash(const std::string& s)
    {
        u64 h = 1469598103934665603ull;
        for (unsigned char c: s) h = (h ^ c) * 1099511628211ull;
        return h;
    }
    static u64 vechash(const std::vector<u64>& v)
    {
        u64 h = 1469598103934665603ull;
        for (u64 x: v) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; }
        return h;
    }

    // ---- coverage feedback (g++ -fsanitize-coverage=trace-pc,trace-cmp) -------------------
    static constexpr size_t map_size = 1 << 17;
    static u8 cov_map[map_size];
    static bool cov_on = false, cov_seen = false;
    static constexpr size_t dict_cap = 4096;
    static u64 dict[dict_cap];
    static size_t dict_n = 0, dict_k = 0;
    static void dict_add(u64 v)
    {
        if (v < 3) return;
        if (dict_n < dict_cap) dict[dict_n++] = v; else dict[(dict_k++ * 2654435761u) % dict_cap] = v;
    }
#define NOCOV __attribute__((no_sanitize_coverage, no_sanitize("address", "undefined")))
    static inline void cmp_feature(u64 pc, u64 a, u64 b)
    {
        if (!cov_on) return;
        u64 d = a ^ b;
        unsigned f = d ? 64 - __builtin_clzll(d) : 0;          // how many low bits still differ
        u64 diff = a > b ? a - b : b - a;
        unsigned g = diff ? 64 - __builtin_clzll(diff) : 0;
        size_t i = (pc * 0x9e3779b97f4a7c15ull ^ (f * 67 + g) * 0xbf58476d1ce4e5b9ull) >> 47;
        if (cov_map[i] < 255) cov_map[i]++;
    }
}

namespace pbt { u64 g_edges = 0; }
extern "C" void __sanitizer_cov_trace_pc()
{
    using namespace pbt;
    cov_seen = true;
    g_edges++;
    if (!cov_on) return;
    u64 pc = (u64)__builtin_return_address(0);
    size_t i = (pc * 0x9e3779b97f4a7c15ull) >> 47;
    if (cov_map[i] < 255) cov_map[i]++;
}
#define CMPFN(name, T, C) \
    extern "C" void name(T a, T b) \
    { \
        using namespace pbt; \
        if (!cov_on) return; \
        if (a != b) { if (C) dict_add(a); else { dict_add(a); dict_add(b); } } \
        cmp_feature((u64)__builtin_return_address(0), a, b); \
    }
CMPFN(__sanitizer_cov_trace_cmp1, std::uint8_t, 0)
CMPFN(__sanitizer_cov_trace_cmp2, std::uint16_t, 0)
CMPFN(__sanitizer_cov_trace_cmp4, std::uint32_t, 0)
CMPFN(__sanitizer_cov_trace_cmp8, std::uint64_t, 0)
CMPFN(__sanitizer_cov_trace_const_cmp1, std::uint8_t, 1)
CMPFN(__sanitizer_cov_trace_const_cmp2, std::uint16_t, 1)
CMPFN(__sanitizer_cov_trace_const_cmp4, std::uint32_t, 1)
CMPFN(__sanitizer_cov_trace_const_cmp8, std::uint64_t, 1)
extern "C" void __sanitizer_cov_trace_cmpf(float, float) {}
extern "C" void __sanitizer_cov_trace_cmpd(double, double) {}
extern "C" void __sanitizer_cov_trace_switch(std::uint64_t v, std::uint64_t* cases)
{
    using namespace pbt;
    if (!cov_on) return;
    for (u64 i = 0; i < cases[0] && i < 64; i++) dict_add(cases[2 + i]);
    cmp_feature((u64)__builtin_return_address(0), v, 0);
}

namespace pbt
{
    // ---- running one case ---------------------------------------------------------------
    struct WorkerStats
    {
        u64 evals = 0, known = 0;
        std::unordered_set<u64> distinct;
        std::map<std::string, u64> labels, known_hits;
        std::vector<std::string> samples;
    };

    static void set_case(Shm* s, u64 phase, u64 idx)
    {
        s->phase = phase;
        s->idx = idx;
        s->n = 0;
        s->desc[0] = 0;
        s->beat.fetch_add(1);
    }

    static void copy(char* d, size_t n, const std::string& s)
    {
        size_t k = std::min(n - 1, s.size());
        memcpy(d, s.data(), k);
        d[k] = 0;
    }

    static bool run_case(const Test& t, Src& src, Ctx& ctx, Fail& f)
    {
        try
        {
            t.run(src, ctx);
            return true;
        }
        catch (const Fail& e) { f = e; }
        catch (const std::exception& e) { f = Fail{"exception", std::string("unexpected exception ") + e.what()}; }
        catch (...) { f = Fail{"exception", "unexpected exception of unknown type"}; }
        return false;
    }

    static void account(WorkerStats& st, const Src& src, const Ctx& ctx)
    {
        st.evals++;
        for (auto& l: ctx.labels) st.labels[l]++;
        if (ctx.nontrivial)
        {
            bool fresh = st.distinct.insert(vechash(src.log)).second;
            if (fresh && st.samples.size() < 3 && (st.distinct.size() == 1 || st.distinct.size() == 40 || st.distinct.size() == 400))
                st.samples.push_back(ctx.desc);
        }
    }

    // returns false when the worker must stop (failure recorded)
    static bool one(const Test& t, Src& src, WorkerStats& st, u64 phase, u64 idx)
    {
        set_case(g_shm, phase, idx);
        Ctx ctx;
        Fail f;
        if (!run_case(t, src, ctx, f))
        {
            if (known_keys.count(f.key))
            {
                st.known_hits[f.key]++;
                st.evals++;
                return true;
            }
            copy(g_shm->key, sizeof g_shm->key, f.key);
            copy(g_shm->msg, sizeof g_shm->msg, f.msg);
            copy(g_shm->desc, sizeof g_shm->desc, ctx.desc);
            g_shm->status = 2;
            return false;
        }
        account(st, src, ctx);
        return true;
    }

    static u64 grid_count(const Test& t) { return t.grid_n ? t.grid_n(opt.thorough) : 0; }
    static u64 rand_count(const Test& t) { return u64(std::ceil(double(opt.thorough ? t.thorough : t.quick) * opt.scale)); }
    static u64 guided_count(const Test& t) { return u64(double(opt.thorough ? t.guided_thorough : t.guided_quick) * opt.scale); }

    static std::vector<u64> mutate(Rng& r, const std::vector<std::vector<u64>>& corpus)
    {
        std::vector<u64> v = corpus[r.next() % corpus.size()];
        unsigned k = 1 + r.next() % 4;
        while (k--)
        {
            if (v.empty()) v.push_back(r.next());
            size_t i = r.next() % v.size();
            switch (r.next() % 10)
            {
            case 0: v[i] = r.next(); break;
            case 1: v[i] += 1 + r.next() % 4; break;
            case 2: v[i] -= 1 + r.next() % 4; break;
            case 3: v[i] ^= 1ull << (r.next() % 64); break;
            case 4: v[i] = r.next() % 300; break;
            case 5: case 6: if (dict_n)
                {
                    u64 d = dict[r.next() % dict_n];
                    v[i] = d + (r.next() % 3) - 1;
                }
                break;
            case 7: v.erase(v.begin() + i, v.begin() + i + 1 + r.next() % std::min<size_t>(8, v.size() - i)); break;
            case 8:
            {
                size_t n = 1 + r.next() % std::min<size_t>(8, v.size() - i);
                std::vector<u64> c(v.begin() + i, v.begin() + i + n);
                v.insert(v.begin() + i, c.begin(), c.end());
                break;
            }
            case 9:
            {
                auto& o = corpus[r.next() % corpus.size()];
                if (!o.empty())
                {
                    size_t j = r.next() % o.size(), n = 1 + r.next() % (o.size() - j);
                    for (size_t q = 0; q < n && i + q < v.size(); q++) v[i + q] = o[j + q];
                }
                break;
            }
            }
            if (v.size() > 2000) v.resize(2000);
        }
        return v;
    }

    static bool new_coverage(std::vector<u8>& seen)
    {
        static const auto bucket = [](u8 c) -> u8
        {
            return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
        };
        bool fresh = false;
        for (size_t i = 0; i < map_size; i += 8)
        {
            u64 w;
            memcpy(&w, cov_map + i, 8);
            if (!w) continue;
            for (size_t j = i; j < i + 8; j++)
            {
                u8 b = bucket(cov_map[j]);
                if (b & ~seen[j]) { seen[j] |= b; fresh = true; }
            }
        }
        return fresh;
    }

    static void save_stats(const WorkerStats& st, const std::string& path)
    {
        FILE* f = fopen(path.c_str(), "w");
        if (!f) { perror(path.c_str()); _exit(97); }
        fprintf(f, "E %llu\n", (unsigned long long)st.evals);
        for (auto& [k, v]: st.labels) fprintf(f, "L %llu %s\n", (unsigned long long)v, k.c_str());
        for (auto& [k, v]: st.known_hits) fprintf(f, "K %llu %s\n", (unsigned long long)v, k.c_str());
        for (auto s: st.samples)
        {
            for (auto& c: s) if (c == '\n') c = ' ';
            fprintf(f, "S %s\n", s.c_str());
        }
        for (u64 h: st.distinct) fprintf(f, "D %llx\n", (unsigned long long)h);
        fclose(f);
    }

    // the whole life of worker w on test t; stops before (phase, idx) >= stop when given
    static void worker(const Test& t, unsigned w, Shm* shm, const std::string& statfile)
    {
        g_shm = shm;
        WorkerStats st;
        u64 th = strhash(t.name), base = mixseed(opt.seed, th, 0);
        bool ok = true;
        for (u64 i = w, n = grid_count(t); ok && i < n; i += opt.workers)
        {
            auto pre = t.grid(i, opt.thorough);
            Src s;
            s.in = &pre;
            s.rng = Rng(mixseed(base, 1, i));
            ok = one(t, s, st, 0, i);
        }
        for (u64 i = w, n = rand_count(t); ok && i < n; i += opt.workers)
        {
            Src s;
            s.rng = Rng(mixseed(base, 2, i));
            ok = one(t, s, st, 1, i);
        }
        if (ok && guided_count(t) && cov_seen)
        {
            u64 n = guided_count(t) / opt.workers;
            Rng r(mixseed(base, 3, w));
            std::vector<std::vector<u64>> corpus;
            std::vector<u8> seen(map_size, 0);
            auto exec = [&](Src& s, u64 i)
            {
                memset(cov_map, 0, map_size);
                cov_on = true;
                bool good = one(t, s, st, 2, i);
                cov_on = false;
                if (good && s.log.size() < 2000 && new_coverage(seen)) corpus.push_back(s.log);
                return good;
            };
            for (u64 i = 0; ok && i < 40; i++)
            {
                Src s;
                s.rng = Rng(mixseed(base, 4, i * 1000 + w));
                ok = exec(s, i);
            }
            if (corpus.empty()) corpus.push_back({});
            for (u64 i = 40; ok && i < n; i++)
            {
                auto v = mutate(r, corpus);
                Src s;
                s.in = &v;
                s.mix = true;
                s.rng = Rng(r.next());
                ok = exec(s, i);
            }
            st.labels["guided-corpus"] += corpus.size();
        }
        if (ok)
        {
            save_stats(st, statfile);
            shm->status = 1;
        }
        fflush(stdout);
        _exit(ok ? 0 : 3);
    }

    static double cpu_of(pid_t p)
    {
        char path[64], buf[1024];
        snprintf(path, sizeof path, "/proc/%d/stat", p);
        int fd = open(path, O_RDONLY);
        if (fd < 0) return 0;
        ssize_t n = read(fd, buf, sizeof buf - 1);
        close(fd);
        if (n <= 0) return 0;
        buf[n] = 0;
        char* q = strrchr(buf, ')');
        unsigned long ut = 0, stt = 0;
        if (!q || sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &stt) != 2) return 0;
        return double(ut + stt) / double(sysconf(_SC_CLK_TCK));
    }

    static Shm* new_shm()
    {
        void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(98); }
        return new (p) Shm();
    }

    struct Outcome
    {
        bool failed = false;
        std::string key, msg, desc;
        std::vector<u64> log;
    };

    static std::string death(int status)
    {
        if (WIFSIGNALED(status))
            return std::string("killed by signal ") + std::to_string(WTERMSIG(status)) + " (" + strsignal(WTERMSIG(status)) + ")";
        return "process ended with status " + std::to_string(WEXITSTATUS(status));
    }

    static std::string tail(const std::string& path)
    {
        FILE* f = fopen(path.c_str(), "r");
        if (!f) return "";
        std::string s;
        char b[4096];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < 1 << 20) s.append(b, n);
        fclose(f);
        if (s.size() > 1500) s.resize(1500);
        return s;
    }

    // run one choice sequence in a child
    static Outcome isolated(const Test& t, const std::vector<u64>& seq, bool random_tail = false, u64 rngseed = 0)
    {
        static Shm* shm = new_shm();
        new (shm) Shm();
        std::string err = opt.tmp + "/case.err";
        fflush(stdout);
        pid_t p = fork();
        if (p < 0) { perror("fork"); exit(98); }
        if (p == 0)
        {
            int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd >= 0) dup2(fd, 2);
            rlimit rl{t.cpu, t.cpu + 5};
            setrlimit(RLIMIT_CPU, &rl);
            rlimit core{0, 0};
            setrlimit(RLIMIT_CORE, &core);
            g_shm = shm;
            g_mirror = true;
            Src s;
            s.mode = Src::Mode::replay;
            s.in = &seq;
            s.mix = random_tail;
            s.rng = Rng(rngseed);
            set_case(shm, 9, 0);
            Ctx ctx;
            Fail f;
            if (!run_case(t, s, ctx, f))
            {
                copy(shm->key, sizeof shm->key, f.key);
                copy(shm->msg, sizeof shm->msg, f.msg);
                copy(shm->desc, sizeof shm->desc, ctx.desc);
                shm->status = 2;
                _exit(3);
            }
            copy(shm->desc, sizeof shm->desc, ctx.desc);
            shm->status = 1;
            _exit(0);
        }
        int status;
        while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
        Outcome o;
        o.log.assign(shm->log, shm->log + std::min<u64>(shm->n, max_log));
        o.desc = shm->desc;
        if (shm->status == 2)
        {
            o.failed = true;
            o.key = shm->key;
            o.msg = shm->msg;
        }
        else if (!(shm->status == 1 && WIFEXITED(status) && WEXITSTATUS(status) == 0))
        {
            if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)
            {
                // ended from outside (memory pressure): not evidence about the code
                return o;
            }
            o.failed = true;
            o.key = WIFSIGNALED(status) && WTERMSIG(status) == SIGXCPU ? "hang" : "crash";
            o.msg = death(status) + " " + tail(err);
        }
        return o;
    }

    static double now()
    {
        timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
    }

    static Outcome shrink(const Test& t, Outcome best)
    {
        double t0 = now();
        int budget = best.key == "hang" ? 0 : 3000;
        auto attempt = [&](const std::vector<u64>& c) -> bool
        {
            if (budget-- <= 0 || now() - t0 > 60) return false;
            auto o = isolated(t, c);
            if (!o.failed || o.key != best.key) return false;
            // canonical log, trailing zeros are implied
            while (!o.log.empty() && o.log.back() == 0) o.log.pop_back();
            auto smaller = [](const std::vector<u64>& a, const std::vector<u64>& b)
            {
                return a.size() != b.size() ? a.size() < b.size() : a < b;
            };
            if (!smaller(o.log, best.log)) return false;
            best = o;
            return true;
        };
        while (!best.log.empty() && best.log.back() == 0) best.log.pop_back();
        bool progress = true;
        while (progress && budget > 0 && now() - t0 < 60)
        {
            progress = false;
            for (size_t n = std::max<size_t>(1, best.log.size() / 2); n >= 1; n /= 2)
            {
                for (size_t i = 0; i + n <= best.log.size();)
                {
                    auto c = best.log;
                    c.erase(c.begin() + i, c.begin() + i + n);
                    if (attempt(c)) progress = true; else i += n;
                }
                if (n == 1) break;
            }
            for (size_t i = 0; i < best.log.size(); i++)
            {
                if (best.log[i] == 0) continue;
                auto c = best.log;
                c[i] = 0;
                if (attempt(c)) { progress = true; continue; }
                for (u64 step = best.log[i] / 2; step >= 1 && i < best.log.size(); step /= 2)
                {
                    while (i < best.log.size() && best.log[i] >= step)
                    {
                        auto d = best.log;
                        d[i] -= step;
                        if (attempt(d)) progress = true; else break;
                    }
                }
            }
        }
        return best;
    }

    static std::string jstr(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c: s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += char(c);
        }
        return o + "\"";
    }

    static void write_replay(const Test& t, const std::string& kind, const Outcome& o, unsigned w)
    {
        std::string path = opt.out + ".replay";
        FILE* f = fopen(path.c_str(), "w");
        if (!f) { perror(path.c_str()); exit(98); }
        fprintf(f, "test %s\nkind %s\nseed %llu\ntier %s\nworker %u %u\nkey %s\n", t.name.c_str(), kind.c_str(),
                (unsigned long long)opt.seed, opt.thorough ? "thorough" : "quick", w, opt.workers, o.key.c_str());
        fprintf(f, "choices");
        for (u64 v: o.log) fprintf(f, " %llu", (unsigned long long)v);
        fprintf(f, "\n");
        auto flat = [](std::string s) { for (auto& c: s) if (c == '\n') c = '|'; return s; };
        fprintf(f, "message %s\ncase %s\n", flat(o.msg).c_str(), flat(o.desc).c_str());
        fclose(f);
    }

    // runs worker w of test t to its end; true when it failed
    static bool rerun_worker(const Test& t, unsigned w, Outcome& o)
    {
        Shm* shm = new_shm();
        fflush(stdout);
        pid_t p = fork();
        if (p == 0)
        {
            int fd = open((opt.tmp + "/case.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd >= 0) dup2(fd, 2);
            rlimit core{0, 0};
            setrlimit(RLIMIT_CORE, &core);
            worker(t, w, shm, opt.tmp + "/rerun.stat");
        }
        int status;
        while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
        bool failed = shm->status == 2 || (shm->status != 1 && !(WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL));
        if (failed)
        {
            o.failed = true;
            o.log.assign(shm->log, shm->log + std::min<u64>(shm->n, max_log));
            if (shm->status == 2) { o.key = shm->key; o.msg = shm->msg; o.desc = shm->desc; }
            else { o.key = "crash"; o.msg = death(status) + " " + tail(opt.tmp + "/case.err"); }
        }
        munmap(shm, sizeof *shm);
        return failed;
    }

    struct Merged
    {
        u64 evals = 0;
        std::map<std::string, u64> labels, known;
        std::vector<std::string> samples;
        std::unordered_set<u64> distinct;
    };

    static void merge(Merged& m, const std::string& path, u64 salt)
    {
        FILE* f = fopen(path.c_str(), "r");
        if (!f) return;
        char buf[8192];
        while (fgets(buf, sizeof buf, f))
        {
            size_t n = strlen(buf);
            if (n && buf[n - 1] == '\n') buf[--n] = 0;
            unsigned long long v;
            int at = 0;
            switch (buf[0])
            {
            case 'E': sscanf(buf + 2, "%llu", &v); m.evals += v; break;
            case 'L': sscanf(buf + 2, "%llu %n", &v, &at); m.labels[buf + 2 + at] += v; break;
            case 'K': sscanf(buf + 2, "%llu %n", &v, &at); m.known[buf + 2 + at] += v; break;
            case 'S': m.samples.push_back(buf + 2); break;
            case 'D': sscanf(buf + 2, "%llx", &v); m.distinct.insert(v ^ salt); break;
            }
        }
        fclose(f);
        unlink(path.c_str());
    }

    static int do_replay()
    {
        FILE* f = fopen(opt.replay.c_str(), "r");
        if (!f) { perror(opt.replay.c_str()); return 98; }
        std::string name, kind;
        std::vector<u64> seq;
        unsigned w = 0;
        char* line = nullptr;
        size_t cap = 0;
        while (getline(&line, &cap, f) > 0)
        {
            std::string l(line);
            while (!l.empty() && (l.back() == '\n')) l.pop_back();
            auto sp = l.find(' ');
            std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
            if (k == "test") name = v;
            else if (k == "kind") kind = v;
            else if (k == "seed") opt.seed = strtoull(v.c_str(), nullptr, 10);
            else if (k == "tier") opt.thorough = v == "thorough";
            else if (k == "worker") sscanf(v.c_str(), "%u %u", &w, &opt.workers);
            else if (k == "choices")
            {
                const char* p = v.c_str();
                char* e;
                while (true) { u64 x = strtoull(p, &e, 10); if (e == p) break; seq.push_back(x); p = e; }
            }
        }
        free(line);
        fclose(f);
        for (auto& t: tests())
        {
            if (t.name != name) continue;
            Outcome o;
            if (kind == "worker") rerun_worker(t, w, o); else o = isolated(t, seq);
            if (!o.failed) { printf("REPLAY pass: %s\n", o.desc.c_str()); return 0; }
            printf("REPLAY fails: test=%s key=%s\n  case: %s\n  %s\n", name.c_str(), o.key.c_str(), o.desc.c_str(), o.msg.c_str());
            return 1;
        }
        fprintf(stderr, "no test named %s\n", name.c_str());
        return 98;
    }

    static bool run_test(const Test& t, Merged& all)
    {
        unsigned W = opt.workers;
        std::vector<Shm*> shm(W);
        std::vector<pid_t> pid(W);
        std::vector<std::string> stat(W), err(W);
        std::vector<double> mark(W, 0);
        std::vector<u64> beat(W, 0);
        std::vector<int> st(W, 0);
        fflush(stdout);
        for (unsigned w = 0; w < W; w++)
        {
            shm[w] = new_shm();
            stat[w] = opt.tmp + "/w" + std::to_string(w) + ".stat";
            err[w] = opt.tmp + "/w" + std::to_string(w) + ".err";
            pid_t p = fork();
            if (p < 0) { perror("fork"); exit(98); }
            if (p == 0)
            {
                int fd = open(err[w].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                if (fd >= 0) dup2(fd, 2);
                rlimit core{0, 0};
                setrlimit(RLIMIT_CORE, &core);
                worker(t, w, shm[w], stat[w]);
            }
            pid[w] = p;
        }
        int bad = -1;
        bool hang = false, lost = false;
        unsigned left = W;
        double t0 = now();
        while (left)
        {
            int status;
            pid_t p = waitpid(-1, &status, WNOHANG);
            if (p <= 0)
            {
                usleep(20000);
                for (unsigned w = 0; w < W && bad < 0; w++)
                {
                    if (!pid[w]) continue;
                    u64 b = shm[w]->beat;
                    if (b != beat[w]) { beat[w] = b; mark[w] = 0; continue; }
                    if (mark[w] == 0) mark[w] = cpu_of(pid[w]) + 1e-9;
                    else if (cpu_of(pid[w]) - mark[w] > t.cpu) { bad = int(w); hang = true; }
                }
                if (hang) for (unsigned w = 0; w < W; w++) if (pid[w]) kill(pid[w], SIGKILL);
                if (hang) hang = false, lost = true, st[bad] = -1;
                continue;
            }
            for (unsigned w = 0; w < W; w++)
            {
                if (pid[w] != p) continue;
                pid[w] = 0;
                left--;
                if (st[w] != -1) st[w] = status;
                bool fine = shm[w]->status == 1 && WIFEXITED(status) && WEXITSTATUS(status) == 0;
                if (!fine && bad < 0)
                {
                    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)
                    {
                        fprintf(stderr, "worker %u was killed from outside\n", w);
                        exit(96);
                    }
                    bad = int(w);
                    for (unsigned x = 0; x < W; x++) if (pid[x]) kill(pid[x], SIGKILL);
                }
            }
        }
        u64 salt = strhash(t.name);
        if (bad < 0)
        {
            Merged m;
            for (unsigned w = 0; w < W; w++) merge(m, stat[w], salt);
            printf("  %-44s %9llu cases %9zu distinct non-trivial %6.1fs", t.name.c_str(), (unsigned long long)m.evals, m.distinct.size(), now() - t0);
            for (auto& [k, v]: m.labels) printf(" %s=%llu", k.c_str(), (unsigned long long)v);
            printf("\n");
            fflush(stdout);
            all.evals += m.evals;
            for (auto& [k, v]: m.labels) all.labels[t.name + "/" + k] += v;
            for (auto& [k, v]: m.known) all.known[k] += v;
            for (size_t i = 0; i < m.samples.size() && i < 4; i++) all.samples.push_back(t.name + ": " + m.samples[i * m.samples.size() / std::min<size_t>(4, m.samples.size())]);
            all.distinct.insert(m.distinct.begin(), m.distinct.end());
            all.labels[t.name + "/cases"] += m.evals;
            for (auto s: shm) munmap(s, sizeof *s);
            return true;
        }
        Shm* s = shm[bad];
        Outcome o;
        o.failed = true;
        o.log.assign(s->log, s->log + std::min<u64>(s->n, max_log));
        if (s->status == 2) { o.key = s->key; o.msg = s->msg; o.desc = s->desc; }
        else if (lost) { o.key = "hang"; o.msg = "no progress in " + std::to_string(t.cpu) + " s of CPU time"; }
        else { o.key = "crash"; o.msg = death(st[bad]) + " " + tail(err[bad]); }
        printf("  %-44s FAILED (worker %d, phase %llu, case %llu) key=%s\n    %s\n", t.name.c_str(), bad,
               (unsigned long long)s->phase, (unsigned long long)s->idx, o.key.c_str(), o.msg.substr(0, 600).c_str());
        fflush(stdout);
        int again = 0;
        Outcome first;
        for (int i = 0; i < 3; i++)
        {
            auto r = isolated(t, o.log);
            if (r.failed) { again++; first = r; }
        }
        if (again)
        {
            // a crash seen through the worker may have a more exact form alone
            if (first.key != o.key) o = first; else { first.msg = first.msg.empty() ? o.msg : first.msg; o = first; }
            printf("    the failing case fails alone (%d of 3 replays); shrinking\n", again);
            fflush(stdout);
            Outcome small = again == 3 ? shrink(t, o) : o;
            int ok3 = 0;
            for (int i = 0; i < 3 && small.key != "hang"; i++) ok3 += isolated(t, small.log).failed;
            if (ok3 == 0 && small.key != "hang") small = o;
            printf("    minimal case: %s\n    %s\n    choices:", small.desc.c_str(), small.msg.substr(0, 1500).c_str());
            for (u64 v: small.log) printf(" %llu", (unsigned long long)v);
            printf("\n");
            write_replay(t, "case", small, unsigned(bad));
        }
        else
        {
            // depends on what ran before in the same process: replay the worker's history
            int hist = 0;
            Outcome h;
            for (int i = 0; i < 3; i++) hist += rerun_worker(t, unsigned(bad), h);
            printf("    not reproducible alone; the worker's history fails %d of 3 times\n", hist);
            if (hist == 0)
            {
                printf("    UNREPRODUCED: no violation is claimed\n");
                for (auto sp: shm) munmap(sp, sizeof *sp);
                all.labels[t.name + "/unreproduced"]++;
                return true;
            }
            h.log = o.log;
            write_replay(t, "worker", h, unsigned(bad));
        }
        for (auto sp: shm) munmap(sp, sizeof *sp);
        return false;
    }

    int main(int argc, char** argv)
    {
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--tier") opt.thorough = val() == "thorough";
            else if (a == "--workers") opt.workers = unsigned(atoi(val().c_str()));
            else if (a == "--tmp") opt.tmp = val();
            else if (a == "--out") opt.out = val();
            else if (a == "--replay") opt.replay = val();
            else if (a == "--only") opt.only = val();
            else if (a == "--known") { std::string v = val(), cur; for (char c: v + ",") if (c == ',') { if (!cur.empty()) known_keys.insert(cur); cur.clear(); } else cur += c; }
            else if (a == "--scale") opt.scale = atof(val().c_str());
            else if (a == "--list") opt.list = true;
            else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 98; }
        }
        setvbuf(stdout, nullptr, _IOLBF, 0);
        if (opt.list)
        {
            for (auto& t: tests()) printf("%s\n", t.name.c_str());
            return 0;
        }
        if (opt.out.empty()) opt.out = opt.tmp + "/out";
        if (!opt.replay.empty()) return do_replay();
        Merged all;
        bool ok = true;
        std::string rules;
        double t0 = now();
        for (auto& t: tests())
        {
            if (!opt.only.empty() && t.name.find(opt.only) == std::string::npos) continue;
            if (!t.rule.empty()) rules += (rules.empty() ? "" : " | ") + t.name + ": " + t.rule;
            if (!run_test(t, all)) { ok = false; break; }
        }
        FILE* f = fopen((opt.out + ".json").c_str(), "w");
        if (!f) { perror("out"); return 98; }
        fprintf(f, "{\"ok\":%s,\"evaluations\":%llu,\"distinct_nontrivial\":%zu,\"wall_s\":%.3f,\"rule\":%s,\"samples\":[",
                ok ? "true" : "false", (unsigned long long)all.evals, all.distinct.size(), now() - t0, jstr(rules).c_str());
        for (size_t i = 0; i < all.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(all.samples[i]).c_str());
        fprintf(f, "],\"labels\":{");
        size_t k = 0;
        for (auto& [a, b]: all.labels) fprintf(f, "%s%s:%llu", k++ ? "," : "", jstr(a).c_str(), (unsigned long long)b);
        fprintf(f, "},\"known\":{");
        k = 0;
        for (auto& [a, b]: all.known) fprintf(f, "%s%s:%llu", k++ ? "," : "", jstr(a).c_str(), (unsigned long long)b);
        fprintf(f, "}}\n");
        fclose(f);
        return ok ? 0 : 1;
    }
}

int main(int argc, char** argv) { return pbt::main(argc, argv); }
