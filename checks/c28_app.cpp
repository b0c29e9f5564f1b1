// C28: the report is valid JSON with consistent metrics.
#include "../lib/app.h"
using namespace app;

static u64 cores_clock(Src& s)
{
    switch (s.below(6))
    {
        case 0: return 0;
        case 1: return 1 + s.below(10);
        case 2: return s.below(4) ? 1 + s.below(100000) : u64(1) << s.below(64);
        case 3: { u64 m = ~u64(0) / 1000000; return s.below(2) ? m - s.below(3) : m + 1 + s.below(3); }
        default: return 1000 + s.below(4500);
    }
}
static string text(Src& s)
{
    static const std::vector<string> v{"\"", "\\", "\n", "\t", "\x01", "\x1f", "\x7f", "/", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "a", " ", "{", "}", "[", ",", ":", "\\u0041", "'", "\xff", "\x80", "\r", "\b", "=", "-", "\\\"", "null"};
    string r;
    for (size_t i = 0, n = s.below(6); i < n; i++) r += s.below(4) ? s.pick(v) : string(1, char(1 + s.below(255)));
    return r;
}
static void noise(Src& s, Args& a, bool on)
{
    if (on) for (size_t i = 0, n = s.below(4); i < n; i++) a.push_back("--" + string(s.below(3) ? "x" : "") + "-" + text(s));
}
// one or several benchmarks
static Args compose(Src& s, u64& repeats, const std::vector<string>* only = nullptr)
{
    Args a;
    bool adv = s.below(2), verbose = s.below(3) == 0;
    noise(s, a, verbose);
    if (adv) a.push_back("--advanced");
    if (verbose) a.push_back("--verbose");
    noise(s, a, verbose);
    a.push_back("benchmark");
    repeats = 1 + s.below(s.below(4) ? 8 : 60);
    bool few = s.below(8) != 0;
    if (few) a.push_back(fmt("--repeats-time=%llu", (unsigned long long)(s.below(30) ? repeats : 0)));
    if (s.below(8)) a.push_back(fmt("--repeats-warm=%llu", (unsigned long long)s.below(4)));
    u64 clk = cores_clock(s);
    if (clk || s.below(2)) a.push_back(fmt("--cpu-clock=%llu", (unsigned long long)clk));
    noise(s, a, verbose);
    a.push_back("primitive");
    string e = s.pick(names(adv));
    if (s.below(5) == 0) e = string(s.pick(groups).prefix) + "*";
    if (s.below(60) == 0) e = "*";
    if (s.below(60) == 0) e = text(s) + "*";
    a.push_back(e);
    for (auto p: {"bytes-size", "message-size", "key-size", "ikm-size", "salt-size", "info-size", "aad-size"}) a.push_back(fmt("--%s=%zu", p, s.below(5) == 0 ? 0 : s.size(s.below(30) ? 300 : few ? 20000 : 1000)));
    a.push_back(fmt("--iterations=%llu", (unsigned long long)s.below(s.below(20) || !few ? 4 : 40)));
    for (size_t i = 8; i > 1; i--) std::swap(a[a.size() - i], a[a.size() - 1 - s.below(i)]);
    noise(s, a, verbose);
    if (verbose && s.below(3) == 0) a.push_back(text(s));
    return a;
}
static void reports(Src& s, Ctx& c)
{
    u64 repeats;
    Args a = compose(s, repeats);
    long long step = s.below(8) == 0 ? 0 : s.below(4) == 0 ? 1 + (long long)s.below(30) : s.below(4) == 0 ? (long long)(s.bits64() >> (4 + s.below(60))) : (long long)s.below(100000000);
    bool real = s.below(6) == 0;
    c.note("%s", shq(a).c_str());
    if (real) c.note(" by the real clock"); else c.note(" by a clock that moves %lld ns between readings", step);
    app_clock::on = !real;
    app_clock::base = (long long)(s.bits64() >> 4);
    app_clock::step = step >> 4 > (1ll << 52) ? 1 : step;
    app_clock::edges.clear();
    if (names(true).empty()) return;
    app_clock::on = !real;
    auto r = call(a);
    app_clock::on = false;
    auto rep = judge(a, r, c);
    if (!rep.any) { c.label("refused"); return; }
    metrics(a, rep, real ? 0 : app_clock::step);
    c.nontrivial = !rep.names.empty();
    if (!real && step == 0) c.label("coarse clock");
    if (rep.names.size() > 1) c.label("several");
}
PBT_TEST("reports", reports, 9000, 200000, nullptr, nullptr, 9000, 200000,
         "accepted argument lists over all benchmarks, sizes including zero, clocks up to the largest; by the real clock, and by a substituted one of known and also of too coarse steps; the report is parsed strictly, compared with the arguments and its metrics with each other and the clock; non-trivial: something measured");

// the measured work is that of the repeats: counted in branches passed between the two readings of the clock
struct Work { double before, between; };
static Work work(const string& name, const std::map<string, size_t>& size, u64 warm, u64 time)
{
    Args a{"--advanced", "benchmark", fmt("--repeats-time=%llu", (unsigned long long)time), fmt("--repeats-warm=%llu", (unsigned long long)warm), "primitive", name};
    for (auto& [n, v]: size) a.push_back(fmt("--%s=%zu", n.c_str(), v));
    app_clock::base = 1;
    app_clock::step = 1000;
    app_clock::edges.clear();
    u64 e0 = pbt::g_edges;
    app_clock::on = true;
    auto r = call(a);
    app_clock::on = false;
    if (r.rc) pbt::fail("refused", "a complete argument list is refused: " + r.err);
    auto& e = app_clock::edges;
    if (e.size() < 2) pbt::fail("clock", "the duration is not measured by a clock");
    // the widest interval is the measured one
    size_t k = 1;
    for (size_t i = 1; i < e.size(); i++) if (e[i] - e[i - 1] > e[k] - e[k - 1]) k = i;
    return {double(e[k - 1] - e0), double(e[k] - e[k - 1])};
}
static void repeats(Src& s, Ctx& c)
{
    string n = s.pick(names(true));
    std::map<string, size_t> size;
    for (auto p: group(n).params) size[p] = !strcmp(p, "iterations") ? 1 + s.below(4) : 1 + s.below(400);
    u64 w = s.below(30), t = 1 + s.below(30), w2 = w + 1 + s.below(30), t2 = t + 1 + s.below(30);
    c.note("%s warm %llu and %llu, time %llu and %llu", n.c_str(), (unsigned long long)w, (unsigned long long)w2, (unsigned long long)t, (unsigned long long)t2);
    c.nontrivial = true;
    work(n, size, 1, 1);
    Work a = work(n, size, w, t), b = work(n, size, w, t2), d = work(n, size, w2, t);
    double per = (b.between - a.between) / double(t2 - t);
    if (per < 1) pbt::fail("work", fmt("%s: %llu repeats measured are no more work than %llu", n.c_str(), (unsigned long long)t2, (unsigned long long)t));
    // constant parts are much smaller than one call, most of which is library code
    double calls = a.between / per;
    if (per >= 60 && (calls < double(t) - 0.5 || calls > double(t) + 0.9)) pbt::fail("work", fmt("%s: %llu measured repeats are the work of %.2f calls", n.c_str(), (unsigned long long)t, calls));
    if (std::fabs(d.between - a.between) > 0.1 * per) pbt::fail("work", fmt("%s: warm-up repeats are measured", n.c_str()));
    double warm = (d.before - a.before) / double(w2 - w);
    if (warm < 0.5 * per || warm > 2 * per) pbt::fail("work", fmt("%s: a warm-up repeat is the work of %.2f measured ones", n.c_str(), warm / per));
    // and the sizes are those of the work, for the backends in software
    if (n.find("-sw") == string::npos && n.compare(0, 6, "codec-")) return;
    for (auto p: group(n).params)
    {
        if (!strcmp(p, "key-size") && n.find("poly") != string::npos) continue;
        auto large = size;
        large[p] += !strcmp(p, "iterations") ? 20 : 2000;
        Work e = work(n, large, w, t);
        if (e.between < a.between + (per < 10 ? 1 : 10) * double(t)) pbt::fail("work", fmt("%s: a larger %s is no more work", n.c_str(), p));
    }
}
PBT_TEST("work", repeats, 3000, 60000, [](bool t) { return size_t(100 * (t ? 20 : 3)); }, [](size_t i, bool) { return std::vector<u64>{i % 100}; }, 0, 0,
         "numbers of warm-up and measured repeats and sizes; the instrumented branches passed between the readings of the clock have to be those of the measured repeats; non-trivial: always");
int main(int c, char** v) { return pbt::main(c, v); }
