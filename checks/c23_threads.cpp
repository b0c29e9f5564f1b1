// C23: separate objects in separate threads; shared read-only inputs; shared finished objects.
// Under the thread sanitizer (every unordered access of compiled code, whatever the schedule), and
// at full speed on real cores (assembly included).  The threads run first: what they obtain is then
// compared with the same work done by one thread, so that nothing is initialized before they start.
#if defined(RANGES)
#include "../lib/ranges.h"
#else
#include "../lib/script.h"
#if PART == 0
#include <atomic>
#include <sys/wait.h>
#include <thread>
struct Range { const char* name; Need need; bytes (*run)(Src&, Ctx&, size_t); };
std::vector<Range> ranges_1(), ranges_2(), ranges_3(), ranges_4();
static const size_t nr = 36 + 17 + 17 + 10;
static const std::vector<Range>& all()
{
    static std::vector<Range> v;
    if (v.empty()) for (auto f: {ranges_1, ranges_2, ranges_3, ranges_4}) for (auto& x: f()) v.push_back(x);
    return v;
}
struct Result { bytes out; std::string key, msg; };
template<class F> static Result guarded(F f)
{
    Result r;
    try { r.out = f(); }
    catch (const pbt::Fail& x) { r.key = x.key; r.msg = x.msg; }
    return r;
}
static void threads(size_t n, const std::function<void(size_t)>& f)
{
    std::atomic<size_t> waiting{n};
    std::vector<std::thread> t;
    for (size_t i = 0; i < n; i++) t.emplace_back([&, i] {
        waiting--;
        while (waiting) std::this_thread::yield();
        f(i);
    });
    for (auto& x: t) x.join();
}
// one piece of work: a script on objects, or operations through any call form
struct Work { const Fam* fam = nullptr; size_t var = 0; const Script* script = nullptr; const Range* range = nullptr; u64 seed = 0; size_t n = 0; };
static bytes work(const Work& w)
{
    if (w.fam) return w.fam->v[w.var].run(*w.script);
    Src s;
    s.rng = pbt::Rng(w.seed);
    s.inner = true;
    Ctx c;
    c.want_desc = false;
    return w.range->run(s, c, w.n);
}
static void together(Src& s, Ctx& c)
{
    size_t n = 2 + s.below(4), steps = 1 + s.below(4);
    bool same = s.below(3) == 0;             // all threads on one algorithm
    std::vector<std::unique_ptr<Script>> scripts;
    std::vector<std::vector<Work>> plan(n);
    size_t fi = s.below(nf), ri = s.below(nr);
    for (auto& p: plan) for (size_t k = 0; k < steps; k++)
    {
        Work w;
        if (s.below(2))
        {
            const Fam& f = fams[same ? fi : s.below(nf)];
            size_t v = s.below(f.n);
            if (!have(f.v[v].need)) v = 0;
            w.fam = &f, w.var = v;
            // scripts are read-only: often the same one, with the same inputs, in several threads
            const Script* old = nullptr;
            for (auto& q: plan) for (auto& x: q) if (x.fam == &f && x.script) old = x.script;
            if (old && s.below(2)) w.script = old, c.label("shared-inputs");
            else { Ctx quiet; scripts.push_back(std::make_unique<Script>(script(s, f, quiet))); scripts.back()->shared = true; w.script = scripts.back().get(); }
        }
        else
        {
            w.range = &all()[same ? ri : s.below(nr)];
            if (!have(w.range->need)) w.range = &all()[0];
            w.seed = s.bits64(), w.n = s.size(1500, 64);
        }
        c.note(" %zu:%s", size_t(&p - &plan[0]), w.fam ? w.fam->name : w.range->name);
        p.push_back(w);
    }
    c.nontrivial = true;
    std::vector<std::vector<Result>> got(n, std::vector<Result>(steps));
    threads(n, [&](size_t i) { for (size_t k = 0; k < steps; k++) got[i][k] = guarded([&] { return work(plan[i][k]); }); });
    for (size_t i = 0; i < n; i++) for (size_t k = 0; k < steps; k++)
    {
        auto& w = plan[i][k];
        Result r = guarded([&] { return work(w); });
        auto what = fmt("thread %zu of %zu, step %zu, %s", i, n, k, w.fam ? w.fam->name : w.range->name);
        if (got[i][k].key != r.key) pbt::fail("threads-differ", what + ": " + got[i][k].msg + " against alone: " + r.msg);
        pbt::same("threads-differ", got[i][k].out, r.out, what + " against alone");
    }
}
#if defined(__SANITIZE_THREAD__)
enum { TSAN = 1 };
#else
enum { TSAN = 0 };
#endif
PBT_TEST("together", together, TSAN ? 20000 : 60000, TSAN ? 100000 : 2000000, nullptr, nullptr, 0, 0,
         "2 to 5 threads, each with its own sequence of scripts on objects and operations through any call form, on any algorithms and backends, often with the same read-only inputs; compared with one thread; all non-trivial");

// each case in a process of its own, in which nothing of the library has run before
static void first_use(Src& s, Ctx& c)
{
    size_t n = 2 + s.below(3), ri = s.below(nr), vi = s.below(16), fi = s.below(nf);
    bool obj = s.below(2);
    const Fam& f = fams[fi];
    const Range* r = &all()[ri];
    vi %= f.n;
    if (!have(f.v[vi].need)) vi = 0;
    if (!have(r->need)) r = &all()[0];
    c.note("%s in %zu threads", obj ? f.name : r->name, n);
    Ctx quiet;
    Script sc = script(s, f, quiet);
    sc.shared = true;
    Work w;
    if (obj) w.fam = &f, w.var = vi, w.script = &sc;
    else w.range = r, w.seed = s.bits64(), w.n = s.size(400, 64);
    c.nontrivial = true;
    fflush(stdout);
    int fd[2];
    if (pipe(fd)) _exit(99);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(99); }
    if (p == 0)
    {
        dup2(fd[1], 2);
        std::vector<Result> got(n);
        threads(n, [&](size_t i) { got[i] = guarded([&] { return work(w); }); });
        Result a = guarded([&] { return work(w); });
        for (auto& g: got) if (g.key != a.key || g.out != a.out)
        {
            fprintf(stderr, "a thread obtained %s, alone %s\n", pbt::hex(g.out).c_str(), pbt::hex(a.out).c_str());
            _exit(7);
        }
        _exit(0);
    }
    close(fd[1]);
    std::string err;
    char b[4096];
    ssize_t k;
    while ((k = read(fd[0], b, sizeof b)) > 0) if (err.size() < 3000) err.append(b, k);
    close(fd[0]);
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 7) pbt::fail("threads-differ", err);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { c.nontrivial = false; return; }
    if (!WIFEXITED(st) || WEXITSTATUS(st)) pbt::fail("race", err.empty() ? "the process died" : err);
}
PBT_TEST("first-use", first_use, TSAN ? 5000 : 5000, TSAN ? 30000 : 100000, [](bool t) { return size_t(nr * (t ? 20 : 4)); }, [](size_t i, bool) { return std::vector<u64>{i % 3, i % nr, i / 3, i / nr % 2 ? i % nf : i % nr % nf, i / nr % 2}; }, 0, 0,
         "threads which are the first in their process to use an operation, all of them the same one; all non-trivial");

// objects shared through const: finished ones asked for digests, any state copied from
template<class T, class K> static void view(Src& s, Ctx& c, K init)
{
    size_t n = 2 + s.below(4), len = s.size(700, 64), pre = s.below(len + 1);
    std::vector<size_t> take(n), more(n);
    for (auto& x: take) x = s.below(T::digest_size + 9);
    for (auto& x: more) x = s.size(300, 64);
    bytes m = s.content(len + 300);
    c.note(" len=%zu", len);
    c.nontrivial = true;
    T fin, part;
    init(fin), init(part);
    auto feed = [&](T& t, const u8* p, size_t k) { if constexpr (requires { t.update(p, k); }) t.update(p, k); else t.aad(p, k); };
    feed(fin, m.data(), len);
    fin.finalize();
    feed(part, m.data(), pre);
    const T &f = fin, &q = part;
    auto one = [&](size_t i) {
        bytes r;
        for (size_t k = 0; k < 4; k++)
        {
            bytes o(T::digest_size + 16, 0);
            size_t z = k % 2 ? f.digest(o.data(), take[(i + k) % n]) : f.digest(o.data());
            o.resize(z);
            r.insert(r.end(), o.begin(), o.end());
            if (k == 1)
            {
                T t(q), u;
                init(u);
                u = q;
                for (T* x: {&t, &u})
                {
                    feed(*x, m.data() + pre, more[i]);
                    x->finalize();
                    bytes d(T::digest_size);
                    x->digest(d.data());
                    r.insert(r.end(), d.begin(), d.end());
                }
            }
        }
        return r;
    };
    std::vector<bytes> got(n);
    threads(n, [&](size_t i) { got[i] = one(i); });
    for (size_t i = 0; i < n; i++) pbt::same("view-differs", got[i], one(i), fmt("thread %zu of %zu", i, n));
}
static void views(Src& s, Ctx& c)
{
    bytes key = s.content(32);
    auto none = [](auto& t) { t.initialize(); };
    auto keyed = [&](auto& t) { t.initialize(key.data(), key.size()); };
    auto both = [&](auto& t) { t.initialize(key.data(), key.size(), key.data(), 12); };
    using namespace milo::primitive;
    static const char* const names[] = {"sha1", "sha224", "sha256", "sha384", "sha512", "sha512/224", "sha512/256", "hmac-sha1", "hmac-sha256", "hmac-sha512", "poly1305", "aead", "sha256 sw", "sha1 sw"};
    size_t k = s.below(14);
    c.note("%s", names[k]);
    switch (k)
    {
    case 0: return view<hash::sha_1_160<>>(s, c, none);
    case 1: return view<hash::sha_2_224<>>(s, c, none);
    case 2: return view<hash::sha_2_256<>>(s, c, none);
    case 3: return view<hash::sha_2_384<>>(s, c, none);
    case 4: return view<hash::sha_2_512<>>(s, c, none);
    case 5: return view<hash::sha_2_512_224<>>(s, c, none);
    case 6: return view<hash::sha_2_512_256<>>(s, c, none);
    case 7: return view<mac::hmac<hash::sha_1_160<>>>(s, c, keyed);
    case 8: return view<mac::hmac<hash::sha_2_256<>>>(s, c, keyed);
    case 9: return view<mac::hmac<hash::sha_2_512<>>>(s, c, keyed);
    case 10: return view<mac::poly_1305<>>(s, c, keyed);
    case 11: return view<aead::chacha_20_poly_1305<>>(s, c, both);
    case 12: return view<hash::sha_2_256<o::impl_enforce<d::hash_sha_2_256_impl_sw>>>(s, c, none);
    default: return view<hash::sha_1_160<o::impl_enforce<d::hash_sha_1_160_impl_sw>>>(s, c, none);
    }
}
PBT_TEST("views", views, TSAN ? 40000 : 100000, TSAN ? 100000 : 2000000, [](bool t) { return size_t(14 * (t ? 200 : 30)); }, [](size_t i, bool) { return std::vector<u64>{0, i % 14}; }, 0, 0,
         "threads asking one finished object for digests of any size through const, and copying and assigning from one unfinished object; all non-trivial");
#endif
#endif
