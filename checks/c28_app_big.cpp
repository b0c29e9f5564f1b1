// C28: reports of measurements that process more than 4 GiB.
#include "../lib/app.h"
using namespace app;

static const char* fast[] = {"hash-sha-1-160", "hash-sha-2-256", "mac-hmac-sha-2-256", "mac-poly-1305", "cipher-chacha-20-encrypt", "cipher-chacha-20-decrypt", "aead-chacha-20-poly-1305-encrypt",
                             "aead-chacha-20-poly-1305-decrypt", "codec-base-16-encode", "codec-base-16-decode", "codec-base-64-encode", "codec-base-64-decode", "kdf-hkdf-hmac-sha-2-256", "kdf-pbkdf-2-hmac-sha-1-160"};
static const size_t n_fast = sizeof fast / sizeof *fast, n_quick = 12;
static void big(Src& s, Ctx& c)
{
    string name = fast[s.below(n_fast)];
    auto& all = names(true);
    if (std::find(all.begin(), all.end(), name) == all.end()) { c.label("no such benchmark"); return; }
    bool whole = s.below(4) == 3;                               // in one call
    std::map<string, u64> size;
    for (auto p: group(name).params) size[p] = s.below(20);
    bool kdf = group(name).prefix[0] == 'k';
    string p = size.count("bytes-size") ? "bytes-size" : kdf ? "key-size" : "message-size";
    u64 repeats;
    if (kdf)
    {
        size[p] = name.find("hkdf") != string::npos ? 8160 : 1 + s.below(100000);
        size["iterations"] = 1;
        if (name.find("hkdf") != string::npos) size.erase("iterations");
        repeats = (u64(1) << 32) / size[p] + 1 + s.below(100);
    }
    else if (whole)
    {
        size[p] = (u64(1) << 32) + s.below(100000);
        repeats = 1;
    }
    else
    {
        size[p] = (u64(1) << 24) - 100 + s.below(200);
        repeats = 257 + s.below(16);
    }
    if (size.count("aad-size")) size["aad-size"] = s.below(2) ? s.below(1000) : size[p] / 2;
    Args a{"--advanced", "benchmark", fmt("--repeats-time=%llu", (unsigned long long)repeats), "--repeats-warm=0", fmt("--cpu-clock=%llu", (unsigned long long)(1000 + s.below(5000))), "primitive", name};
    for (auto& [n, v]: size) a.push_back(fmt("--%s=%llu", n.c_str(), (unsigned long long)v));
    app_clock::step = 1000 + (long long)(s.below(0) >> 20);
    c.note("%s", shq(a).c_str());
    app_clock::base = 1;
    app_clock::edges.clear();
    app_clock::on = true;
    auto r = call(a);
    app_clock::on = false;
    auto rep = judge(a, r, c);
    if (!rep.any || rep.names.size() != 1) pbt::fail("refused", "a complete argument list is refused");
    metrics(a, rep, app_clock::step);
    c.nontrivial = true;
    c.label(name.c_str());
}
PBT_TEST("big", big, 0, 0, [](bool t) { return t ? n_fast + n_quick : n_quick; },
         [](size_t i, bool) { return i < n_fast ? std::vector<u64>{i, 0} : std::vector<u64>{i - n_fast, 3}; }, 0, 0,
         "measurements that process more than 4 GiB, in many calls and (thorough) in one; all non-trivial", 400);
int main(int c, char** v) { return pbt::main(c, v); }
