// The application, run inside of the harness: its own main, with argument lists, captured output
// and, where wanted, a clock under control.  And what its documentation says about argument lists.
#pragma once
#define main milo_app_main
#include APP_MAIN
#undef main
#include "pbt.h"
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/common_interface_defs.h>
#endif

namespace app_clock
{
    static bool on = false;
    static long long base = 0, step = 0;
    static std::vector<unsigned long long> edges;   // instrumented branches passed, at each reading
    static inline bool read(timespec* t)
    {
        if (!on) return false;
        if (edges.size() < 4096) edges.push_back(pbt::g_edges);
        base += step;
        t->tv_sec = base / 1000000000;
        t->tv_nsec = base % 1000000000;
        return true;
    }
}
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
    return app_clock::read(t) ? 0 : (int)syscall(SYS_clock_gettime, id, t);
}

namespace app
{
    using pbt::Src; using pbt::Ctx; using pbt::u64; using pbt::bytes;
    using std::string;
    using Args = std::vector<string>;

    static string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
    static string fmt(const char* f, ...)
    {
        char b[4096];
        va_list v;
        va_start(v, f);
        vsnprintf(b, sizeof b, f, v);
        va_end(v);
        return b;
    }
    static string shq(const string& s)
    {
        string r = "'";
        for (unsigned char c: s) r += c == '\'' ? string("'\\''") : c < 32 || c > 126 ? fmt("\\x%02x", c) : string(1, c);
        return r + "'";
    }
    static string shq(const Args& a)
    {
        string r;
        for (auto& x: a) r += (r.empty() ? "" : " ") + shq(x);
        return r;
    }

    // ---- one invocation -------------------------------------------------------------------
    struct Result { int rc; string out, err; };
    static string take(int fd)
    {
        string r;
        off_t n = lseek(fd, 0, SEEK_END);
        r.resize(n);
        if (n && pread(fd, r.data(), n, 0) != n) pbt::fail("harness", "reading the captured output");
        return r;
    }
    // argc as given: 0 is a process started without even a name
    static Result call(const Args& args, bool nameless = false)
    {
        static int fo, fe, so, se, owner = 0;
        if (owner != getpid())
        {
            owner = getpid();
            fo = memfd_create("out", 0); fe = memfd_create("err", 0);
            so = dup(1); se = dup(2);
#ifdef __SANITIZE_ADDRESS__
            __sanitizer_set_report_fd(reinterpret_cast<void*>(long(se)));
#endif
        }
        std::vector<std::vector<char>> store;
        std::vector<char*> argv;
        if (!nameless)
        {
            store.push_back({'m', 'i', 'l', 'o', 0});
            for (auto& a: args) { store.emplace_back(a.begin(), a.end()); store.back().push_back(0); }
        }
        for (auto& s: store) argv.push_back(s.data());
        argv.push_back(nullptr);
        std::cout.flush();
        fflush(stdout); fflush(stderr);
        ftruncate(fo, 0); lseek(fo, 0, SEEK_SET);
        ftruncate(fe, 0); lseek(fe, 0, SEEK_SET);
        dup2(fo, 1); dup2(fe, 2);
        Result r{};
        string escaped;
        try { r.rc = milo_app_main((int)argv.size() - 1, argv.data()); }
        catch (const std::exception& e) { escaped = fmt("an exception leaves main: %s", e.what()); }
        catch (...) { escaped = "an exception leaves main"; }
        app_clock::on = false;
        std::cout.flush(); std::cerr.flush();
        fflush(stdout); fflush(stderr);
        dup2(so, 1); dup2(se, 2);
        if (!std::cout || !std::cerr) { std::cout.clear(); std::cerr.clear(); }
        r.out = take(fo);
        r.err = take(fe);
        if (!escaped.empty()) pbt::fail("crash", escaped);
        return r;
    }

    // ---- JSON, strictly, over bytes ---------------------------------------------------------
    struct J
    {
        enum K { null, boolean, number, str, arr, obj } k = null;
        bool b = false;
        double d = 0;
        string s;                       // string value, or the number as written
        std::vector<J> a;
        std::vector<std::pair<string, J>> o;
        const J* get(const string& n) const
        {
            for (auto& [x, v]: o) if (x == n) return &v;
            return nullptr;
        }
        bool is(u64 v) const { return k == number && s == std::to_string(v); }
    };
    struct Parser
    {
        const string& t;
        size_t p = 0;
        [[noreturn]] void bad(const char* what) { pbt::fail("json", fmt("the output is not valid JSON: %s at %zu of: ", what, p) + t.substr(0, 1500)); }
        void ws() { while (p < t.size() && strchr(" \t\r\n", t[p])) p++; }
        J value(int depth = 0)
        {
            if (depth > 100) bad("nesting");
            ws();
            if (p >= t.size()) bad("end");
            J j;
            char c = t[p];
            if (c == '{')
            {
                j.k = J::obj;
                p++; ws();
                if (p < t.size() && t[p] == '}') { p++; return j; }
                while (true)
                {
                    ws();
                    J n = string_();
                    ws();
                    if (p >= t.size() || t[p] != ':') bad("colon");
                    p++;
                    if (j.get(n.s)) bad("repeated name");
                    j.o.emplace_back(n.s, value(depth + 1));
                    ws();
                    if (p < t.size() && t[p] == ',') { p++; continue; }
                    if (p < t.size() && t[p] == '}') { p++; return j; }
                    bad("object");
                }
            }
            if (c == '[')
            {
                j.k = J::arr;
                p++; ws();
                if (p < t.size() && t[p] == ']') { p++; return j; }
                while (true)
                {
                    j.a.push_back(value(depth + 1));
                    ws();
                    if (p < t.size() && t[p] == ',') { p++; continue; }
                    if (p < t.size() && t[p] == ']') { p++; return j; }
                    bad("array");
                }
            }
            if (c == '"') return string_();
            for (auto [w, k, b]: {std::tuple{"true", J::boolean, true}, {"false", J::boolean, false}, {"null", J::null, false}})
                if (!t.compare(p, strlen(w), w)) { p += strlen(w); j.k = k; j.b = b; return j; }
            size_t q = p;
            auto digit = [&] { return p < t.size() && t[p] >= '0' && t[p] <= '9'; };
            if (t[p] == '-') p++;
            if (!digit()) bad("value");
            if (t[p] == '0') p++; else while (digit()) p++;
            if (p < t.size() && t[p] == '.') { p++; if (!digit()) bad("fraction"); while (digit()) p++; }
            if (p < t.size() && (t[p] == 'e' || t[p] == 'E'))
            {
                p++;
                if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++;
                if (!digit()) bad("exponent");
                while (digit()) p++;
            }
            j.k = J::number;
            j.s = t.substr(q, p - q);
            j.d = strtod(j.s.c_str(), nullptr);
            return j;
        }
        int hex4()
        {
            int v = 0;
            for (int i = 0; i < 4; i++, p++)
            {
                if (p >= t.size() || !isxdigit((unsigned char)t[p])) bad("unicode escape");
                v = v * 16 + (t[p] <= '9' ? t[p] - '0' : (t[p] | 32) - 'a' + 10);
            }
            return v;
        }
        J string_()
        {
            J j;
            j.k = J::str;
            if (p >= t.size() || t[p] != '"') bad("string");
            for (p++; ; )
            {
                if (p >= t.size()) bad("string end");
                unsigned char c = t[p++];
                if (c == '"') return j;
                if (c < 0x20) bad("control character");
                if (c != '\\') { j.s += c; continue; }
                if (p >= t.size()) bad("escape");
                c = t[p++];
                const char *from = "\"\\/bfnrt", *to = "\"\\/\b\f\n\r\t";
                if (c == 'u')
                {
                    int v = hex4();
                    if (v >= 0xd800 && v < 0xdc00 && !t.compare(p, 2, "\\u")) { p += 2; v = 0x10000 + ((v - 0xd800) << 10) + (hex4() - 0xdc00); }
                    if (v < 0x80) j.s += char(v);
                    else if (v < 0x800) { j.s += char(0xc0 | v >> 6); j.s += char(0x80 | (v & 63)); }
                    else if (v < 0x10000) { j.s += char(0xe0 | v >> 12); j.s += char(0x80 | (v >> 6 & 63)); j.s += char(0x80 | (v & 63)); }
                    else { j.s += char(0xf0 | v >> 18); j.s += char(0x80 | (v >> 12 & 63)); j.s += char(0x80 | (v >> 6 & 63)); j.s += char(0x80 | (v & 63)); }
                }
                else if (c && strchr(from, c)) j.s += to[strchr(from, c) - from];
                else bad("escape");
            }
        }
        J document()
        {
            J j = value();
            ws();
            if (p != t.size()) bad("more than one document");
            return j;
        }
    };
    static J json(const string& t) { return Parser{t}.document(); }

    // ---- what is available --------------------------------------------------------------
    struct Group { const char* prefix; std::vector<const char*> params; };
    static const std::vector<Group> groups{
        {"codec-", {"bytes-size"}},
        {"hash-", {"message-size"}},
        {"mac-", {"key-size", "message-size"}},
        {"kdf-hkdf-", {"ikm-size", "salt-size", "info-size", "key-size"}},
        {"kdf-pbkdf-2-", {"ikm-size", "salt-size", "iterations", "key-size"}},
        {"cipher-", {"bytes-size"}},
        {"aead-", {"aad-size", "bytes-size"}},
    };
    static const Group& group(const string& name)
    {
        for (auto& g: groups) if (!name.compare(0, strlen(g.prefix), g.prefix)) return g;
        pbt::fail("name", "listed name of no documented group: " + name);
    }
    // a name the documentation and the library's public algorithms promise
    static std::vector<string> promised()
    {
        std::vector<string> r;
        for (auto c: {"16", "64"}) for (auto d: {"encode", "decode"}) r.push_back(fmt("codec-base-%s-%s", c, d));
        for (auto h: {"sha-1-160", "sha-2-224", "sha-2-256", "sha-2-384", "sha-2-512", "sha-2-512-224", "sha-2-512-256"})
        {
            r.push_back(fmt("hash-%s", h));
            r.push_back(fmt("mac-hmac-%s", h));
            r.push_back(fmt("kdf-hkdf-hmac-%s", h));
            r.push_back(fmt("kdf-pbkdf-2-hmac-%s", h));
        }
        r.push_back("mac-poly-1305");
        for (auto d: {"encrypt", "decrypt"}) { r.push_back(fmt("cipher-chacha-20-%s", d)); r.push_back(fmt("aead-chacha-20-poly-1305-%s", d)); }
        return r;
    }
    static std::vector<string> lines(const string& t)
    {
        std::vector<string> r;
        size_t p = 0;
        while (p < t.size())
        {
            size_t q = t.find('\n', p);
            if (q == string::npos) pbt::fail("list", "the list ends in an incomplete line");
            r.push_back(t.substr(p, q - p));
            p = q + 1;
        }
        return r;
    }
    static std::vector<string> sorted(std::vector<string> v) { std::sort(v.begin(), v.end()); return v; }
    static std::vector<string> listed(bool advanced)
    {
        auto r = call(advanced ? Args{"--advanced", "benchmark", "primitive", "list"} : Args{"benchmark", "primitive", "list"});
        if (r.rc) pbt::fail("list", "list fails: " + r.err);
        return lines(r.out);
    }
    static const std::vector<string>& names(bool advanced)
    {
        static std::vector<string> n[2];
        if (n[advanced].empty()) n[advanced] = listed(advanced);
        return n[advanced];
    }

    // every star stands for any run of characters
    static bool matches(const string& pat, const string& s)
    {
        std::vector<char> now(s.size() + 1), next(s.size() + 1);
        now[0] = 1;
        for (char c: pat)
        {
            std::fill(next.begin(), next.end(), 0);
            for (size_t i = 0; i <= s.size(); i++)
            {
                if (c == '*') next[i] = now[i] || (i && next[i - 1]);
                else next[i] = i && now[i - 1] && s[i - 1] == c;
            }
            std::swap(now, next);
        }
        return now[s.size()];
    }

    // ---- model of the argument list --------------------------------------------------------
    struct Val
    {
        enum K { absent, given, odd } k = absent;   // odd: not a number, or given in two ways; unspecified
        u64 v = 0;
        bool lead = false;                          // odd, v is what stands before a further equals sign: refused or that
        bool known() const { return k == given || lead; }
    };
    static Val integer(const Args& a, size_t b, size_t e, const string& name)
    {
        Val r;
        for (size_t i = b; i < e; i++)
        {
            const string& t = a[i];
            Val x;
            if (t == "--" + name) x.k = Val::odd;
            else if (!t.compare(0, name.size() + 3, "--" + name + "="))
            {
                string d = t.substr(name.size() + 3);
                x.k = Val::given;
                if (d.empty() || d.size() > 40) x.k = Val::odd;
                unsigned __int128 v = 0;
                for (char c: d) if (c < '0' || c > '9') x.k = Val::odd; else { v = v * 10 + (c - '0'); if (v >> 64) x.k = Val::odd; }
                x.v = u64(v);
                size_t q = d.find('=');
                if (q != string::npos && q > 0 && q < 16 && d.find_first_not_of("0123456789") == q) x.lead = true, x.v = std::stoull(d.substr(0, q));
            }
            else continue;
            if (r.k == Val::absent) r = x;
            else if (r.k != x.k || r.v != x.v || r.lead != x.lead) r.k = Val::odd, r.lead = false;
        }
        return r;
    }
    static Val flag(const Args& a, size_t b, size_t e, const string& name)
    {
        Val r;
        for (size_t i = b; i < e; i++)
        {
            if (a[i] == "--" + name) { r.k = Val::given; return r; }
            if (!a[i].compare(0, name.size() + 3, "--" + name + "=")) r.k = Val::odd;
        }
        return r;
    }
    struct Model
    {
        enum K { error, version, list, report } k = error;
        Val verbose, advanced, clock, warm, time;
        string expression;
        std::map<string, Val> params;       // of any group, at their place
        explicit Model(const Args& a)
        {
            size_t p = 0;
            auto region = [&] { size_t e = p; while (e < a.size() && !a[e].empty() && a[e][0] == '-') e++; return e; };
            size_t e = region();
            verbose = flag(a, p, e, "verbose");
            advanced = flag(a, p, e, "advanced");
            if (e >= a.size()) return;
            if (a[e] == "version") { k = version; return; }
            if (a[e] != "benchmark") return;
            p = e + 1;
            e = region();
            clock = integer(a, p, e, "cpu-clock");
            warm = integer(a, p, e, "repeats-warm");
            time = integer(a, p, e, "repeats-time");
            if (e >= a.size() || a[e] != "primitive") return;
            p = e + 1;
            e = region();
            if (e >= a.size()) return;
            expression = a[e];
            p = e + 1;
            e = region();
            for (auto& g: groups) for (auto n: g.params) if (!params.count(n)) params[n] = integer(a, p, e, n);
            k = expression == "list" ? list : report;
        }
    };

    struct Report { bool any = false; J top; const J* results = nullptr; std::vector<string> names; };

    // judges one invocation against the model; returns the report, if there is one
    static Report judge(const Args& args, const Result& r, Ctx& c)
    {
        Report rep;
        Model m(args);
        if (r.rc != 0 && r.err.empty()) pbt::fail("message", fmt("status %d without a message", r.rc));
        if (r.rc < 0 || r.rc > 125) pbt::fail("status", fmt("status %d", r.rc));
        if (m.k == Model::error)
        {
            c.label("refused");
            if (r.rc == 0) pbt::fail("accepted", "an incomplete or unknown command is accepted: " + r.out.substr(0, 200));
            return rep;
        }
        if (m.k == Model::version)
        {
            c.label("version");
            if (r.rc || r.out.empty()) pbt::fail("version", "version fails: " + r.err);
            return rep;
        }
        if (m.k == Model::list)
        {
            c.label("list");
            if (r.rc) pbt::fail("list", "list fails: " + r.err);
            auto got = sorted(lines(r.out));
            bool ok = (m.advanced.k != Val::given && got == sorted(names(false))) || (m.advanced.k != Val::absent && got == sorted(names(true)));
            if (!ok) pbt::fail("list", fmt("list prints %zu names, %savailable are others", got.size(), m.advanced.k == Val::given ? "with the advanced option, " : ""));
            return rep;
        }
        // which benchmarks, and is anything missing?
        auto select = [&](bool adv) { std::vector<string> s; for (auto& n: names(adv)) if (matches(m.expression, n)) s.push_back(n); return s; };
        std::vector<std::vector<string>> choices;
        if (m.advanced.k != Val::given) choices.push_back(select(false));
        if (m.advanced.k != Val::absent) choices.push_back(select(true));
        std::set<string> absent;
        bool odd = false, huge = false;
        for (auto& n: choices[0]) for (auto p: group(n).params)
        {
            if (m.params[p].k == Val::absent) absent.insert(p);
            if (m.params[p].k == Val::odd) odd = true;
            if (m.params[p].k == Val::given && m.params[p].v > (u64(1) << 40)) huge = true;
        }
        if (!absent.empty())
        {
            c.label("missing");
            if (r.rc == 0) pbt::fail("missing", "accepted without the required --" + *absent.begin());
            bool named = odd || huge;
            for (auto& p: absent) named |= r.err.find("--" + p) != string::npos;
            if (!named) pbt::fail("missing", "the message does not name the missing parameter: " + r.err);
            return rep;
        }
        odd |= m.clock.k == Val::odd || m.warm.k == Val::odd || m.time.k == Val::odd || choices.size() > 1;
        if (odd) c.label("odd-values");
        if (huge) c.label("huge-values");
        if (r.rc != 0)
        {
            if (!odd && !huge) pbt::fail("refused", "a complete argument list is refused: " + r.err);
            return rep;
        }
        rep.any = true;
        rep.top = json(r.out);
        if (rep.top.k != J::obj) pbt::fail("json", "the report is not an object");
        const J* res = &rep.top;
        const J* cmd = rep.top.get("command");
        if (m.verbose.k == Val::given && !cmd) pbt::fail("verbose", "the verbose report does not have the arguments");
        if (m.verbose.k == Val::absent && cmd) pbt::fail("verbose", "the report is verbose without the option");
        if (cmd)
        {
            c.label("verbose");
            const J* av = cmd->get("args");
            if (!av || av->k != J::arr || av->a.size() != args.size()) pbt::fail("verbose", "the verbose report does not reproduce the arguments");
            for (size_t i = 0; i < args.size(); i++) if (av->a[i].k != J::str || av->a[i].s != args[i]) pbt::fail("verbose", "argument " + shq(args[i]) + " is reported as " + shq(av->a[i].s));
            res = rep.top.get("result");
            if (!res || res->k != J::obj) pbt::fail("verbose", "the verbose report has no result");
        }
        const J* x = res->get("benchmark");
        rep.results = x ? x->get("primitive") : nullptr;
        if (rep.results) for (auto& [n, _]: rep.results->o) rep.names.push_back(n);
        bool ok = false;
        for (auto& ch: choices) ok |= sorted(ch) == sorted(rep.names);
        if (!ok)
        {
            string t;
            auto want = sorted(choices[0]), got = sorted(rep.names);
            for (auto& n: want) if (!std::binary_search(got.begin(), got.end(), n)) { t = "does not select " + n; break; }
            for (auto& n: got) if (!std::binary_search(want.begin(), want.end(), n)) { t = "selects " + n; break; }
            pbt::fail("selection", "expression " + shq(m.expression) + (m.advanced.k == Val::given ? " with the advanced option " : " ") + t);
        }
        if (rep.names.empty()) return rep;
        c.label("measured");
        // the configuration in effect
        for (auto& [n, v]: rep.results->o)
        {
            const J* cf = v.get("config");
            const J *in = cf ? cf->get("input") : nullptr, *be = cf ? cf->get("benchmark") : nullptr;
            if (!in || !be) pbt::fail("config", n + " does not report its configuration");
            auto& g = group(n);
            for (auto p: g.params)
            {
                const J* y = in->get(p);
                if (!y) pbt::fail("config", n + " does not report " + p);
                if (m.params[p].known() && !y->is(m.params[p].v)) pbt::fail("config", fmt("%s: --%s=%llu is reported as %s", n.c_str(), p, (unsigned long long)m.params[p].v, y->s.c_str()));
            }
            if (in->o.size() != g.params.size()) pbt::fail("config", n + " reports parameters it does not have");
            auto expect = [&](const char* p, const Val& w, u64 def, bool zero_is_one)
            {
                const J* y = be->get(p);
                u64 want = w.k == Val::absent ? def : w.v;
                if (zero_is_one && want == 0) want = 1;
                if (!y || y->k != J::number) pbt::fail("config", fmt("%s does not report %s", n.c_str(), p));
                if ((w.k != Val::odd || w.lead) && !y->is(want)) pbt::fail("config", fmt("%s: %s is %s, expected %llu%s", n.c_str(), p, y->s.c_str(), (unsigned long long)want, w.k == Val::absent ? ", the default" : ""));
            };
            expect("repeats-warm", m.warm, 128, false);
            expect("repeats-time", m.time, 1024, true);
            const J* y = be->get("cpu-clock");
            if (m.clock.k == Val::absent || (m.clock.k == Val::given && m.clock.v == 0)) { if (y) pbt::fail("config", n + " reports a clock that was not given"); }
            else if (m.clock.k == Val::given)
            {
                if (m.clock.v <= ~u64(0) / 1000000) { if (!y || !y->is(m.clock.v * 1000000)) pbt::fail("config", fmt("%s: clock of %llu MHz is reported as %s Hz", n.c_str(), (unsigned long long)m.clock.v, y ? y->s.c_str() : "no")); }
                else if (y && y->d < 1.8e19) pbt::fail("config", fmt("%s: clock of %llu MHz is reported as %s Hz", n.c_str(), (unsigned long long)m.clock.v, y->s.c_str()));
            }
        }
        return rep;
    }

    // metrics of every reported benchmark: positive and consistent
    static void metrics(const Args& args, const Report& rep, long long step)
    {
        if (!rep.results) return;
        Model m(args);
        auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-6 * std::fabs(b); };
        for (auto& [n, v]: rep.results->o)
        {
            const J* me = v.get("metrics");
            const J *in = v.get("config")->get("input"), *be = v.get("config")->get("benchmark");
            if (!me) pbt::fail("metrics", n + " has no metrics");
            auto num = [&](const char* grp, const char* name) -> double
            {
                const J* x = me->get(grp);
                x = x ? x->get(name) : nullptr;
                if (!x) return -1;
                if (x->k != J::number || !std::isfinite(x->d) || x->d <= 0) pbt::fail("metrics", fmt("%s: %s is %s", n.c_str(), name, x->s.c_str()));
                return x->d;
            };
            auto need = [&](const char* grp, const char* name) { double d = num(grp, name); if (d < 0) pbt::fail("metrics", fmt("%s: no %s", n.c_str(), name)); return d; };
            double per_call = need("duration", "nanoseconds_per_call");
            double repeats = be->get("repeats-time")->d;
            double size = 0;
            auto& g = group(n);
            string p = g.prefix;
            if (p == "codec-" || p == "cipher-") size = in->get("bytes-size")->d;
            else if (p == "hash-" || p == "mac-") size = in->get("message-size")->d;
            else if (p == "aead-") size = in->get("aad-size")->d + in->get("bytes-size")->d;
            else size = in->get("key-size")->d;
            if (step > 0)
            {
                // the clock is ours: the measured time is a few of its steps
                double k = per_call * repeats / double(step), whole = std::round(k);
                if (whole < 1 || whole > 8 || !near(k, whole)) pbt::fail("metrics", fmt("%s: %.17g ns per call of %.0f calls, the clock advanced by %lld ns between its readings", n.c_str(), per_call, repeats, step));
            }
            if (size == 0) { num("throughput", "gigabytes_per_second"); num("throughput", "megabytes_per_second"); continue; }
            double gb = need("throughput", "gigabytes_per_second"), mb = need("throughput", "megabytes_per_second");
            if (!near(gb * per_call, size)) pbt::fail("metrics", fmt("%s: %.17g GB/s during %.17g ns are %.17g bytes, not %.0f", n.c_str(), gb, per_call, gb * per_call, size));
            if (!near(mb, gb * 1000)) pbt::fail("metrics", fmt("%s: %.17g MB/s and %.17g GB/s", n.c_str(), mb, gb));
            const J* y = be->get("cpu-clock");
            if (!y) { if (me->get("cpu")) pbt::fail("metrics", n + ": cycles without a clock"); continue; }
            double call = need("cpu", "cycles_per_call"), byte = need("cpu", "cycles_per_byte");
            if (!near(call, y->d * per_call / 1e9)) pbt::fail("metrics", fmt("%s: %.17g cycles per call at %.17g Hz and %.17g ns", n.c_str(), call, y->d, per_call));
            if (!near(byte, call / size)) pbt::fail("metrics", fmt("%s: %.17g cycles per byte, %.17g per call of %.0f bytes", n.c_str(), byte, call, size));
        }
    }
}
