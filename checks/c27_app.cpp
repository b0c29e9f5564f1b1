// C27: a benchmark expression selects exactly the names it matches.
#include "../lib/app.h"
using namespace app;

static Args everything(bool adv, const string& e)
{
    Args a;
    if (adv) a.push_back("--advanced");
    for (auto t: {"benchmark", "--repeats-time=1", "--repeats-warm=0", "primitive"}) a.push_back(t);
    a.push_back(e);
    for (auto t: {"--bytes-size=1", "--message-size=1", "--key-size=1", "--ikm-size=1", "--salt-size=1", "--info-size=1", "--iterations=1", "--aad-size=1"}) a.push_back(t);
    return a;
}
static void select(Ctx& c, bool adv, const string& e)
{
    c.note("%s%s", shq(e).c_str(), adv ? " advanced" : "");
    if (!e.empty() && e[0] == '-') { c.label("not a command"); return; }
    auto r = call(everything(adv, e));
    auto rep = judge(everything(adv, e), r, c);
    if (e == "list") return;
    if (!rep.any) pbt::fail("refused", "an expression is refused: " + r.err);
    c.note(" -> %zu", rep.names.size());
    size_t stars = std::count(e.begin(), e.end(), '*');
    c.label(rep.names.empty() ? "none" : rep.names.size() == 1 ? "one" : rep.names.size() < names(adv).size() ? "some" : "all");
    if (stars > 1) c.label("several stars");
    c.nontrivial = stars > 0;
}
static string piece(Src& s, const string& n)
{
    size_t i = s.below(n.size()), k = 1 + s.below(n.size() - i);
    return n.substr(i, s.below(3) ? std::min<size_t>(k, 1 + s.below(5)) : k);
}
static void patterns(Src& s, Ctx& c)
{
    bool adv = s.below(2);
    auto& ns = names(adv);
    string n = s.pick(ns), e;
    switch (s.below(7))
    {
        case 6:
        {
            // words with a meaning elsewhere, spoilt
            static const std::vector<string> w{"list", "benchmark", "primitive", "version", "verbose", "advanced", "help", "all", "none"};
            string x = s.below(2) ? w[0] : s.pick(w);
            size_t i = s.below(x.size() + 1);
            switch (s.below(6))
            {
                case 0: e = x + "*"; break;
                case 1: e = "*" + x; break;
                case 2: e = x.substr(0, i) + "*" + x.substr(i); break;
                case 3: e = s.below(2) ? x.substr(0, i) : x.substr(i); break;
                case 4: e = s.below(2) ? x + (s.below(2) ? "-" : "") + n : n + x; break;
                default: e = x; for (auto& ch: e) if (s.below(3) == 0) ch = char(toupper(ch));
            }
            break;
        }
        case 0: case 1: case 2:
        {
            // a name with runs replaced by stars, possibly spoilt
            size_t i = 0;
            while (i < n.size())
            {
                if (s.below(6) == 0) { size_t k = s.below(s.below(2) ? 4 : n.size()); e += s.below(5) ? "*" : "**"; i += k; }
                else e += n[i++];
            }
            if (s.below(4) == 0) e += "*";
            if (s.below(6) == 0) e = "*" + e;
            break;
        }
        case 3:
            // pieces of names, in any order, between stars
            for (size_t i = 0, k = s.below(6); i <= k; i++) e += (s.below(4) ? "*" : "") + piece(s, s.below(3) ? n : s.pick(ns));
            if (s.below(2)) e += "*";
            break;
        case 4:
            for (size_t i = 0, k = s.below(10); i < k; i++) e += s.pick(std::vector<string>{"*", "-", "s", "h", "a", "2", "1", "224", "256", "512", "sha", "sha-2", "-512", "sw", "n", "i", "code", "hmac", "c", "e", "de", "en", "mac-"});
            break;
        default:
            e = n;
    }
    if (s.below(4) == 0 && !e.empty())
    {
        size_t i = s.below(e.size());
        switch (s.below(5))
        {
            case 0: e.erase(i, 1); break;
            case 1: e.insert(i, 1, e[i]); break;
            case 2: e[i] = s.pick(std::vector<char>{'?', '.', '[', ']', '\\', '+', '%', '*', ' ', 'A', '2', '-', '\xff'}); break;
            case 3: e += piece(s, n); break;
            default: std::swap(e[i], e[e.size() - 1]);
        }
    }
    select(c, adv, e);
}
PBT_TEST("expressions", patterns, 80000, 2000000, nullptr, nullptr, 60000, 1500000,
         "expressions drawn from listed names by replacing runs with stars, from pieces of them and from single characters, also spoilt; the selected names are compared with a reference matcher over the printed list; non-trivial: with a star");

// every name by itself, each cut in two and three, each with one star at every place
static void exhaustive(Src& s, Ctx& c)
{
    bool adv = s.below(2);
    auto& ns = names(adv);
    string n = ns[s.below(ns.size())], e = n;
    size_t k = s.below(3), i = s.below(n.size() + 1), j = i + s.below(n.size() - i + 1);
    if (k >= 1) e = n.substr(0, i) + "*" + n.substr(j);
    if (k == 2) { size_t m = j + s.below(n.size() - j + 1); e = n.substr(0, i) + "*" + n.substr(j, m - j) + "*" + n.substr(m + s.below(n.size() - m + 1)); }
    select(c, adv, e);
}
PBT_TEST("names", exhaustive, 40000, 1000000, [](bool t) { return size_t(200 * (t ? 50 : 12)); }, [](size_t i, bool) { return std::vector<u64>{i % 2, i / 2 % 100, i / 200 % 3}; }, 0, 0,
         "every listed name, whole and with one or two of its runs replaced by stars; non-trivial: with a star");

static void list(Src& s, Ctx& c)
{
    c.note("list");
    auto a = listed(false), b = listed(true);
    c.nontrivial = true;
    for (auto* l: {&a, &b})
    {
        std::set<string> seen;
        for (auto& n: *l)
        {
            if (!seen.insert(n).second) pbt::fail("list", n + " is listed twice");
            if (n.empty() || n.find_first_of(" *\t") != string::npos) pbt::fail("list", "strange name " + shq(n));
            group(n);
        }
    }
    std::set<string> all(b.begin(), b.end()), basic(a.begin(), a.end());
    for (auto& n: a) if (!all.count(n)) pbt::fail("list", n + " is not listed with the advanced option");
    if (b.size() <= a.size()) pbt::fail("list", "the advanced option adds nothing");
    for (auto& n: promised()) if (!basic.count(n)) pbt::fail("list", n + " is not listed");
    // backends have to be asked for
    for (auto& n: a) if (n.find("-sw") != string::npos || n.find("-hw-") != string::npos) pbt::fail("list", n + " is listed without the advanced option");
    for (auto& n: promised())
    {
        bool sw = false;
        for (auto& m: b) sw |= m != n && m.find("-sw") != string::npos && group(m).prefix == group(n).prefix;
        if (!sw && n.compare(0, 6, "codec-")) pbt::fail("list", "no backends of " + n + " are listed with the advanced option");
    }
    // and every listed name can be run
    for (bool adv: {false, true}) for (auto& n: adv ? b : a) { Ctx d; auto r = call(everything(adv, n)); auto rep = judge(everything(adv, n), r, d); if (rep.names != std::vector<string>{n}) pbt::fail("selection", "a listed name does not select itself: " + n); }
}
PBT_TEST("list", list, 1, 1, nullptr, nullptr, 0, 0, "the printed lists, with and without the advanced option; non-trivial: always");
int main(int c, char** v) { return pbt::main(c, v); }
