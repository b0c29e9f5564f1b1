#include "ref.h"
#include <cstdlib>
#include <iostream>
#include <sstream>
using namespace ref;
static bytes un(const std::string& s) { bytes b; if (s != "-") unbase16(s, b); return b; }
static Alg alg(const std::string& n) { for (int i = 0; i < alg_count; i++) if (n == alg_name[i]) return Alg(i); abort(); }
static std::string h(const bytes& b) { return b.empty() ? "-" : base16(b); }
int main()
{
    std::string l;
    while (std::getline(std::cin, l))
    {
        std::istringstream in(l);
        std::string op, a, b, c, d;
        in >> op;
        if (op == "hash") { in >> a >> b; std::cout << h(hash(alg(a), un(b))); }
        else if (op == "hmac") { in >> a >> b >> c; std::cout << h(hmac(alg(a), un(b), un(c))); }
        else if (op == "poly") { in >> a >> b; std::cout << h(poly1305(un(a).data(), un(b))); }
        else if (op == "chacha") { u32 n; in >> a >> b >> n >> c; std::cout << h(chacha20(un(a).data(), un(b).data(), n, un(c))); }
        else if (op == "pbkdf2") { size_t i, n; in >> a >> b >> c >> i >> n; std::cout << h(pbkdf2(alg(a), un(b), un(c), i, n)); }
        else if (op == "hkdf") { size_t n; in >> a >> b >> c >> d >> n; std::cout << h(hkdf(alg(a), un(b), un(c), un(d), n)); }
        else if (op == "aead") { in >> a >> b >> c >> d; std::cout << h(aead_tag(un(a).data(), un(b).data(), un(c), un(d))); }
        else if (op == "b64") { in >> a; auto s = base64(un(a)); bytes q; if (!unbase64(s, q) || q != un(a)) s = "roundtrip"; std::cout << (s.empty() ? "-" : s); }
        else if (op == "b16") { in >> a; std::cout << h(un(a)); }
        std::cout << "\n";
    }
}
