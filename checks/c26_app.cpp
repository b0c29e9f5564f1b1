// C26: parameters count by place, name and value.
#include "../lib/app.h"
using namespace app;

static const std::vector<std::vector<const char*>> level{{"verbose", "advanced"}, {"repeats-time", "repeats-warm", "cpu-clock"},
    {"bytes-size", "message-size", "key-size", "ikm-size", "salt-size", "info-size", "iterations", "aad-size"}};

static string number(Src& s, u64 small)
{
    switch (s.below(14))
    {
        case 0: return "0";
        case 1: return "1";
        case 2: return fmt("0%llu", (unsigned long long)s.below(small + 1));
        default: return std::to_string(s.below(small + 1));
    }
}
static string wild(Src& s)
{
    static const std::vector<string> v{"", "-1", "+5", " 5", "0x10", "1e3", "5.5", "abc", "18446744073709551616", "99999999999999999999999999999999999999999999999999", "=", "=5", "5=", "5=3", "17=4", "3=x=8", "\xff", "\x01", "--", "9999999999999999", "nan", "18446744073709551615", "4611686018427387904", "9223372036854775808", "12abc"};
    return s.pick(v);
}
// sometimes with a further equals sign and number
static string tailed(Src& s, string v) { return s.below(16) ? v : v + "=" + std::to_string(s.below(9)); }
static string near_miss_(Src& s, string n)
{
    switch (s.below(9))
    {
        case 0: return n + "x";
        case 1: return n.substr(0, n.size() - 1);
        case 2: return n.substr(1);
        case 3: n[s.below(n.size())] ^= 0x20; return n;
        case 4: return "-" + n;
        case 5: return n + "-" + n;
        case 6: return n.substr(0, n.find('-'));
        case 7: return " " + n;
        default: { size_t i = s.below(n.size()); n.erase(i, 1); return n; }
    }
}
static string near_miss(Src& s, const string& n)
{
    string r = near_miss_(s, n);
    for (auto& l: level) for (auto k: l) if (r == k) return r + "x";
    return r;
}
static string junk(Src& s)
{
    static const std::vector<string> v{"-", "--", "---", "--=", "--=5", "-v", "-x=1", "--unknown", "--unknown=3", "-verbose", "-advanced", "-message-size=4", "---verbose", "--\xff\xfe", "--\x7f", "--a\nb", "--\"q\"=\\", "-1", "--help", "--list", "--size=7"};
    return s.pick(v);
}
// the tokens between two commands: what belongs there, in any order, and what does not count
static void region(Src& s, Args& a, size_t lv, std::vector<std::pair<string, string>> own, bool strange)
{
    Args t;
    for (auto& [n, v]: own) t.push_back(v == "\1" ? "--" + n : "--" + n + "=" + v);
    size_t extra = s.below(3) == 0 ? s.below(5) : 0;
    for (size_t i = 0; i < extra; i++)
    {
        size_t k = s.below(8);
        size_t l = s.below(3);
        string n = s.pick(level[l]);
        string v = strange && s.below(2) ? wild(s) : number(s, 40);
        if (k <= 2) t.push_back(junk(s));
        else if (k <= 5) { n = near_miss(s, n); t.push_back(l == 0 && s.below(3) ? "--" + n : "--" + n + "=" + v); }
        else if (l != lv) t.push_back(l == 0 && s.below(4) ? "--" + n : "--" + n + "=" + v);         // too early or too late
        else if (strange) t.push_back(s.below(2) ? "--" + n + "=" + v : "--" + n);
        else if (!t.empty()) t.push_back(t[s.below(t.size())]);
    }
    for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[s.below(i)]);
    a.insert(a.end(), t.begin(), t.end());
}
static string expression(Src& s, bool adv)
{
    auto& n = names(adv);
    switch (s.below(8))
    {
        case 0: return string(s.pick(groups).prefix) + "*";
        case 1: { string x = s.pick(n); return x.substr(0, x.size() - s.below(6)) + "*"; }
        case 2: { string x = s.pick(n); return "*" + x.substr(x.rfind('-')); }
        case 3: return s.below(4) ? s.pick(n) + (s.below(2) ? "" : "x") : "*";
        default: return s.pick(n);
    }
}
static Args compose(Src& s)
{
    Args a;
    bool strange = s.below(6) == 0, adv = s.below(3) == 0;
    std::vector<std::pair<string, string>> own;
    if (s.below(3) == 0) own.push_back({"verbose", "\1"});
    if (adv) own.push_back({"advanced", "\1"});
    if (s.below(8) == 0 && !own.empty()) own.push_back(own[0]);
    region(s, a, 0, own, strange);
    size_t cut = s.below(40);
    if (cut == 0) return a;
    a.push_back(s.below(30) ? "benchmark" : s.pick(std::vector<string>{"version", "", "bench", "benchmarks", "Benchmark", "primitive", "list", "help", "\xff", "verbose"}));
    own.clear();
    bool few = s.below(12) != 0;
    if (few || s.below(2)) own.push_back({"repeats-time", s.below(20) ? tailed(s, number(s, few ? 4 : 40)) : "00"});
    if (few || s.below(2)) own.push_back({"repeats-warm", tailed(s, number(s, few ? 3 : 40))});
    if (s.below(2)) own.push_back({"cpu-clock", s.below(9) ? number(s, 9000) : std::to_string(u64(1) << s.below(64))});
    region(s, a, 1, own, strange);
    if (cut == 1) return a;
    a.push_back(s.below(40) ? "primitive" : s.pick(std::vector<string>{"", "primitives", "Primitive", "benchmark", "list", "*", "prim"}));
    if (s.below(4) == 0) region(s, a, 3, {}, strange);
    if (cut == 2) return a;
    string e = s.below(20) == 0 ? "list" : expression(s, adv);
    a.push_back(e);
    own.clear();
    std::set<string> wanted;
    if (s.below(10) == 0) for (auto p: level[2]) wanted.insert(p);
    for (auto& n: names(true)) if (matches(e, n)) for (auto p: group(n).params) wanted.insert(p);
    bool drop = s.below(4) == 0;
    for (auto& p: wanted)
    {
        if (drop && s.below(3) == 0) continue;
        own.push_back({p, p == "iterations" ? tailed(s, number(s, 5)) : strange && s.below(5) == 0 ? wild(s) : s.below(6) ? tailed(s, number(s, 70)) : number(s, 700)});
    }
    region(s, a, 2, own, strange);
    if (s.below(5) == 0)
    {
        a.push_back(s.pick(std::vector<string>{"more", "list", "", "benchmark", "primitive", "hash-*"}));
        region(s, a, 3, {}, strange);
    }
    return a;
}
// work the reviewer would wait for: not a case
static bool endless(const Args& a)
{
#ifdef __SANITIZE_ADDRESS__
    // the sanitizer ends a program that asks for too much memory
    for (auto& t: a) { size_t d = 0; for (char c: t) { d = c >= '0' && c <= '9' ? d + 1 : 0; if (d > 11) return true; } }
#endif
    Model m(a);
    u64 r = (m.warm.k == Val::given ? m.warm.v : 128) + (m.time.k == Val::given ? m.time.v : 1024);
    if (m.time.k == Val::odd || m.warm.k == Val::odd) r = 1300;
    if (r < 1 || r > 5000 || (m.warm.v >> 20) || (m.time.v >> 20)) return true;
    double w = 1;
    for (auto& [n, v]: m.params)
    {
        // numbers with something after them count as their digits
        if (v.k == Val::given && v.v > 20000 && v.v < (u64(1) << 47)) return true;
        if (n == "iterations" && v.k == Val::given) { if (v.v > 1000) return true; w *= 1 + v.v; }
    }
    return w * r > 300000;
}
static void lists(Src& s, Ctx& c)
{
    Args a = compose(s);
    c.note("%s", shq(a).c_str());
    if (endless(a)) { c.label("endless"); return; }
    auto r = call(a);
    c.note(" -> %d", r.rc);
    auto rep = judge(a, r, c);
    c.nontrivial = a.size() > 3;
}
PBT_TEST("arguments", lists, 25000, 1000000, nullptr, nullptr, 25000, 1500000,
         "argument lists of the application: commands, the parameters of each at their place and at others, in any order, with near names, unknown tokens, wild values, and left out ones; non-trivial: more than three tokens");

// any tokens at all
static void soup(Src& s, Ctx& c)
{
    static const std::vector<string> words{"benchmark", "primitive", "list", "version", "--verbose", "--advanced", "*", "hash-sha-1-160", "codec-*", "mac-*", "", "-", "--", "hash-*-sw", "--message-size", "--message-size=", "--repeats-time=1", "--repeats-warm=0", "--bytes-size=3", "--message-size=3", "--key-size=3", "--key-size"};
    Args a;
    size_t n = s.below(9);
    for (size_t i = 0; i < n; i++)
    {
        size_t k = s.below(7);
        if (k < 4) a.push_back(s.pick(words));
        else if (k == 4) a.push_back(junk(s));
        else if (k == 5) a.push_back("--" + string(s.pick(level[s.below(3)])) + "=" + (s.below(2) ? wild(s) : number(s, 30)));
        else { auto b = s.content(s.below(40)); string t; for (auto x: b) if (x) t += char(x); a.push_back(t); }
    }
    c.note("%s", shq(a).c_str());
    if (endless(a)) { c.label("endless"); return; }
    auto r = call(a);
    c.note(" -> %d", r.rc);
    judge(a, r, c);
    c.nontrivial = n > 0;
}
PBT_TEST("any tokens", soup, 60000, 1500000, nullptr, nullptr, 40000, 1500000,
         "lists of any tokens; non-trivial: not empty");

static void nameless(Src& s, Ctx& c)
{
    c.note("no argument at all, not even a name");
    c.nontrivial = true;
    auto r = call({}, true);
    if (r.rc == 0 || r.err.empty()) pbt::fail("accepted", "an empty argument list is accepted");
}
PBT_TEST("no name", nameless, 1, 1, nullptr, nullptr, 0, 0, "a process started with an empty argument vector; non-trivial: always");

// moving, adding and permuting what does not count changes nothing
static void places(Src& s, Ctx& c)
{
    // a complete invocation, then the same with noise
    bool adv = s.below(2);
    string e = expression(s, adv);
    std::set<string> wanted;
    for (auto& n: names(true)) if (matches(e, n)) for (auto p: group(n).params) wanted.insert(p);
    std::vector<std::pair<string, string>> own0, own1{{"repeats-time", number(s, 3)}, {"repeats-warm", number(s, 3)}}, own2;
    if (adv) own0.push_back({"advanced", "\1"});
    if (s.below(2)) own1.push_back({"cpu-clock", number(s, 5000)});
    for (auto& p: wanted) own2.push_back({p, number(s, p == "iterations" ? 4 : 60)});
    auto plain = [](const std::vector<std::pair<string, string>>& o, Args& a) { for (auto& [n, v]: o) a.push_back(v == "\1" ? "--" + n : "--" + n + "=" + v); };
    Args a, b;
    plain(own0, a); a.push_back("benchmark"); plain(own1, a); a.push_back("primitive"); a.push_back(e); plain(own2, a);
    region(s, b, 0, own0, false); b.push_back("benchmark"); region(s, b, 1, own1, false); b.push_back("primitive"); region(s, b, 3, {}, false); b.push_back(e); region(s, b, 2, own2, false);
    if (s.below(2)) { b.push_back("end"); region(s, b, 3, {}, false); }
    c.note("%s against %s", shq(a).c_str(), shq(b).c_str());
    for (auto& t: b) if (t == "--verbose") return;     // the noise may be that option, at its place
    if (!adv) for (auto& t: b) if (t == "--advanced") return;
    auto ra = call(a), rb = call(b);
    auto ja = judge(a, ra, c), jb = judge(b, rb, c);
    if (ra.rc || rb.rc) pbt::fail("refused", "a complete argument list is refused: " + (ra.rc ? ra.err : rb.err));
    c.nontrivial = ja.names.size() > 0;
    for (size_t i = 0; i < ja.names.size(); i++)
    {
        const J *x = ja.results->get(ja.names[i])->get("config"), *y = jb.results->get(ja.names[i])->get("config");
        auto in = [](const J* j, const J* k) { for (auto& [n, v]: j->o) for (auto& [m, w]: v.o) if (!k->get(n) || !k->get(n)->get(m) || k->get(n)->get(m)->s != w.s) return false; return true; };
        if (!in(x, y) || !in(y, x)) pbt::fail("noise", "tokens that do not count change the configuration");
    }
}
PBT_TEST("noise", places, 15000, 500000, nullptr, nullptr, 0, 0,
         "a complete argument list and the same with its parameters in another order and with tokens that do not count: equal configurations; non-trivial: something measured");
int main(int c, char** v) { return pbt::main(c, v); }
