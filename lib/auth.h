// Every way the library can be asked to verify an AEAD tag.
#pragma once
#include "drv.h"

namespace auth
{
    using namespace drv;
    using milo::error;
    enum { forms = 14 };
    inline const char* const form_name[forms] = {
        "verify(ptr,error)", "verify(ptr)", "verify(container,error)", "verify(container)",
        "decrypt(ptr,error)", "decrypt(ptr)", "decrypt(container&,error)", "decrypt(container&)", "decrypt<>(error)", "decrypt<>()",
        "verify twice(error)", "verify after digest", "verify after wrong verify", "decrypt<string>(error)"};
    inline error stale(Src& s)
    {
        static const error v[] = {error::none, error::size, error::aead_verify, error::codec_base_16_decode, error::codec_base_64_decode};
        return v[s.below(5)];
    }
    // true when accepted; text receives the plaintext
    template<class T> bool verify(Src& s, u64 form, const bytes& k, const bytes& v, const bytes& ad, const bytes& ct, const bytes& tag, bytes& text)
    {
        text.assign(ct.size(), 0);
        In<u8> K(s, k), V(s, v), A(s, ad), C(s, ct), G(s, tag);
        auto span = [](const In<u8>& x) { return std::span<const u8>(x.p, x.n); };
        auto exact = [](const error& e) -> bool
        {
            if (!e) return true;
            if (!(e == error::aead_verify)) pbt::fail("error-code", "a verification failure carries another error");
            return false;
        };
        bool ok;
        error e = stale(s);
        auto guarded = [&](auto f) -> bool
        {
            try { f(); }
            catch (const error& x)
            {
                if (!x) pbt::fail("error-code", "an empty error was thrown");
                exact(x);
                return false;
            }
            return true;
        };
        if (form < 4 || (form >= 10 && form < 13))
        {
            mp::aead::apie<T> a(K.p, K.n, V.p, V.n);
            size_t h = ad.size() ? s.below(ad.size() + 1) : 0;
            if (s.below(2)) { a.aad(A.p, h); a.aad(A.p + h, ad.size() - h); }
            else if (!ad.empty()) a.aad(A.p, A.n);
            h = ct.size() ? s.below(ct.size() + 1) : 0;
            if (s.below(2)) { a.decrypt(C.p, h, text.data()); a.decrypt(C.p + h, ct.size() - h, text.data() + h); }
            else a.decrypt(C.p, C.n, text.data());
            switch (form)
            {
            case 0: a.verify(G.p, G.n, e); ok = exact(e); break;
            case 1: ok = guarded([&] { a.verify(G.p, G.n); }); break;
            case 2: a.verify(span(G), e); ok = exact(e); break;
            case 3: ok = guarded([&] { a.verify(tag); }); break;
            case 10:
            {
                a.verify(G.p, G.n, e);
                ok = exact(e);
                error f = stale(s);
                a.verify(tag, f);
                if (exact(f) != ok) pbt::fail("verify-twice", "a second verification disagrees with the first");
                break;
            }
            case 11:
            {
                bytes d(16);
                a.digest(d.data());
                ok = guarded([&] { a.verify(G.p, G.n); });
                break;
            }
            default:
            {
                bytes w = tag;
                w.resize(16);
                w[s.below(16)] ^= 0x40;
                a.verify(w.data(), w.size(), e);
                e = stale(s);
                a.verify(span(G), e);
                ok = exact(e);
            }
            }
        }
        else switch (form)
        {
        case 4:
        {
            size_t n = mp::aead::decrypt<T>(K.p, K.n, V.p, V.n, A.p, A.n, C.p, C.n, G.p, G.n, text.data(), e);
            if (n != ct.size()) pbt::fail("stream-size", "decrypt size");
            ok = exact(e);
            break;
        }
        case 5: ok = guarded([&] { mp::aead::decrypt<T>(K.p, K.n, V.p, V.n, A.p, A.n, C.p, C.n, G.p, G.n, text.data()); }); break;
        case 6: mp::aead::decrypt<T>(span(K), span(V), span(A), span(C), span(G), text, e); ok = exact(e); break;
        case 7: ok = guarded([&] { mp::aead::decrypt<T>(k, v, ad, ct, tag, text); }); break;
        case 8: text = mp::aead::decrypt<T, bytes>(span(K), span(V), span(A), span(C), span(G), e); ok = exact(e); break;
        case 9: ok = guarded([&] { text = mp::aead::decrypt<T, bytes>(k, v, ad, ct, tag); }); break;
        default:
        {
            auto r = mp::aead::decrypt<T, std::string>(k, v, ad, ct, tag, e);
            text.assign(r.begin(), r.end());
            ok = exact(e);
        }
        }
        K.check("key"), V.check("iv"), A.check("aad"), C.check("ciphertext"), G.check("tag");
        return ok;
    }
}
