// Drivers: run one logical operation of the library through a drawn call form, byte type,
// buffer placement and splitting, and compare with the expected bytes.
#pragma once
#include "h.h"
#include <array>
#include <span>
#include <string>
#include <vector>

#include <milo/primitive/aead/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/detail/alias.h>

namespace drv
{
    using namespace h;
    namespace mp = milo::primitive;

    // ---- digests (hash, mac, aead objects) ------------------------------------------------
    // Asks `a` for its digest in a drawn form; returns the bytes obtained.
    template<class B, size_t DS, class A>
    bytes take(Src& s, Ctx& c, A& a)
    {
        auto size_ok = [&](const char* f, size_t r, size_t want)
        {
            if (r != want) pbt::fail("digest-size", fmt("digest form %s returned size %zu, expected %zu", f, r, want));
        };
        switch (s.below(7))
        {
        case 0:
        {
            Out<B> o(s, DS);
            size_t r = a.digest(o.p);
            size_ok("pointer", r, DS);
            o.check("digest", DS);
            return o.get(r);
        }
        case 1:
        {
            size_t n = s.below(DS + 17), e = std::min(n, DS);
            Out<B> o(s, n);
            size_t r = a.digest(o.p, n);
            c.note(" take(ptr,%zu)", n);
            size_ok("pointer,n", r, e);
            o.check("digest", e);
            return o.get(r);
        }
        case 2:
        {
            std::vector<B> v(s.below(100), B(3));
            size_t r = a.digest(v);
            size_ok("vector&", r, DS);
            size_ok("vector& container", v.size(), DS);
            return bytes(v.begin(), v.end());
        }
        case 3:
        {
            size_t n = s.below(DS + 17), e = std::min(n, DS);
            std::vector<B> v(s.below(100), B(3));
            size_t r = a.digest(v, n);
            c.note(" take(vector&,%zu)", n);
            size_ok("vector&,n", r, e);
            size_ok("vector&,n container", v.size(), e);
            return bytes(v.begin(), v.end());
        }
        case 4:
        {
            size_t n = s.below(DS + 17), e = std::min(n, DS);
            auto v = a.template digest<std::vector<B>>(n);
            c.note(" take<vector>(%zu)", n);
            size_ok("vector(n)", v.size(), e);
            return bytes(v.begin(), v.end());
        }
        case 5:
        {
            auto v = a.template digest<std::array<B, DS>>();
            return bytes(v.begin(), v.end());
        }
        default:
        {
            size_t cap = s.below(DS + 17), n = s.below(DS + 17), e = std::min(std::min(n, cap), DS);
            Out<B> o(s, cap);
            std::span<B> sp(o.p, cap);
            size_t r = a.digest(sp, n);
            c.note(" take(span %zu,%zu)", cap, n);
            size_ok("span,n", r, e);
            o.check("digest span", e);
            return o.get(r);
        }
        }
    }

    // Feeds `msg` to a.update in pieces.
    template<class B, class A>
    void feed(Src& s, Ctx& c, A& a, const bytes& msg, size_t block)
    {
        In<B> in(s, msg);
        auto parts = split(s, msg.size(), block);
        c.note(" pieces=%s", show(parts).c_str());
        if (parts.size() > 1) c.label("split");
        bool cont = s.below(2);
        size_t pos = 0;
        for (size_t k: parts)
        {
            if (cont) a.update(std::span<const B>(in.p + pos, k));
            else a.update(in.p + pos, k);
            pos += k;
        }
        in.check("message");
    }

    inline void want_prefix(const char* key, const bytes& got, const bytes& want, const std::string& what)
    {
        pbt::same(key, got, prefix(want, got.size()), what);
    }

    template<class B, class T>
    bytes plain_digest(Src& s, const T& a)
    {
        constexpr size_t DS = T::digest_size;
        Out<B> o(s, DS);
        size_t n = s.below(DS + 9), e = std::min(n, DS);
        size_t r = s.below(2) ? a.digest(o.p, n) : (e = DS, a.digest(o.p));
        if (r != e) pbt::fail("digest-size", fmt("class digest returned %zu, expected %zu", r, e));
        o.check("digest", e);
        return o.get(r);
    }
    // algorithm classes used directly: pointers only, an explicit finalize, then any number of digests
    template<class B, class T>
    bytes take_plain(Src& s, Ctx& c, T& a, const bytes& msg, size_t block)
    {
        constexpr size_t DS = T::digest_size;
        In<B> in(s, msg);
        auto parts = split(s, msg.size(), block);
        c.note(" pieces=%s", show(parts).c_str());
        size_t pos = 0;
        for (size_t k: parts) a.update(in.p + pos, k), pos += k;
        in.check("message");
        a.finalize();
        return plain_digest<B>(s, a);
    }

    template<class T, class B>
    bytes hash_once(Src& s, Ctx& c, const bytes& msg)
    {
        constexpr size_t DS = T::digest_size;
        switch (s.below(7))
        {
        case 3:
        {
            c.note(" form=class");
            T a;
            a.initialize();
            return take_plain<B>(s, c, a, msg, T::block_size);
        }
        case 0:
        {
            c.note(" form=one-call(ptr)");
            In<B> in(s, msg);
            size_t n = s.below(DS + 9), e = std::min(n, DS);
            Out<B> o(s, DS);
            size_t r = s.below(2) ? mp::hash::digest<T>(in.p, in.n, o.p, n) : (e = DS, mp::hash::digest<T>(in.p, in.n, o.p));
            in.check("message");
            if (r != e) pbt::fail("digest-size", fmt("one-call digest returned %zu, expected %zu", r, e));
            o.check("digest", e);
            return o.get(r);
        }
        case 1:
        {
            c.note(" form=one-call(container)");
            In<B> in(s, msg);
            auto d = mp::hash::digest<T, std::vector<B>>(std::span<const B>(in.p, in.n), DS);
            in.check("message");
            return bytes(d.begin(), d.end());
        }
        case 2:
        {
            c.note(" form=one-call(static)");
            In<B> in(s, msg);
            auto d = mp::hash::digest<T>(std::span<const B>(in.p, in.n));
            in.check("message");
            return bytes(d.begin(), d.end());
        }
        default:
        {
            c.note(" form=object");
            mp::hash::apie<T> a;
            if (s.below(4) == 0)                    // used before
            {
                c.note(" reused");
                feed<B>(s, c, a, s.content(s.below(200)), 64);
                if (s.below(2)) take<B, DS>(s, c, a);
                a.initialize();
            }
            else if (s.below(2)) a.initialize();
            feed<B>(s, c, a, msg, T::block_size);
            return take<B, DS>(s, c, a);
        }
        }
    }

    template<class T, class B>
    bytes mac_once(Src& s, Ctx& c, const bytes& key, const bytes& msg, size_t block)
    {
        constexpr size_t DS = T::digest_size;
        In<B> k(s, key);
        auto done = [&] { k.check("key"); };
        switch (s.below(7))
        {
        case 4:
        {
            c.note(" form=class");
            T a;
            a.initialize(k.p, k.n);
            done();
            return take_plain<B>(s, c, a, msg, block);
        }
        case 0:
        {
            c.note(" form=one-call(ptr)");
            In<B> in(s, msg);
            size_t n = s.below(DS + 9), e = std::min(n, DS);
            Out<B> o(s, DS);
            size_t r = s.below(2) ? mp::mac::digest<T>(k.p, k.n, in.p, in.n, o.p, n) : (e = DS, mp::mac::digest<T>(k.p, k.n, in.p, in.n, o.p));
            in.check("message");
            done();
            if (r != e) pbt::fail("digest-size", fmt("one-call mac returned %zu, expected %zu", r, e));
            o.check("tag", e);
            return o.get(r);
        }
        case 1:
        {
            c.note(" form=one-call(container)");
            In<B> in(s, msg);
            auto d = mp::mac::digest<T, std::vector<B>>(std::span<const B>(k.p, k.n), std::span<const B>(in.p, in.n), DS);
            in.check("message");
            done();
            return bytes(d.begin(), d.end());
        }
        case 2:
        {
            c.note(" form=one-call(static)");
            In<B> in(s, msg);
            auto d = mp::mac::digest<T>(std::span<const B>(k.p, k.n), std::span<const B>(in.p, in.n));
            in.check("message");
            done();
            return bytes(d.begin(), d.end());
        }
        case 3:
        {
            c.note(" form=object(key)");
            mp::mac::apie<T> a(k.p, k.n);
            done();
            feed<B>(s, c, a, msg, block);
            return take<B, DS>(s, c, a);
        }
        default:
        {
            c.note(" form=object");
            mp::mac::apie<T> a;
            if (s.below(2))                         // used before with another key
            {
                c.note(" reused");
                bytes k2 = s.content(key.size() <= 32 && T::key_size ? key.size() : s.below(300));
                a.initialize(k2.data(), k2.size());
                feed<B>(s, c, a, s.content(s.below(200)), block);
                if (s.below(2)) take<B, DS>(s, c, a);
            }
            if (s.below(2)) a.initialize(std::span<const B>(k.p, k.n));
            else a.initialize(k.p, k.n);
            done();
            feed<B>(s, c, a, msg, block);
            return take<B, DS>(s, c, a);
        }
        }
    }

    // ---- cipher and aead streams ----------------------------------------------------------
    // f(ptr, n, out) is called per piece and must produce n bytes at once
    template<class B, class F>
    bytes stream(Src& s, Ctx& c, const bytes& in_, size_t block, F f, bool inplace_ok = true)
    {
        auto parts = split(s, in_.size(), block);
        c.note(" pieces=%s", show(parts).c_str());
        if (parts.size() > 1) c.label("split");
        bool inplace = inplace_ok && s.below(4) == 0;
        In<B> in(s, in_);
        Out<B> o(s, in_.size());
        if (inplace)
        {
            c.note(" in-place");
            c.label("in-place");
            if (o.n) memcpy(o.m.p, in.m.p, o.n);
        }
        size_t pos = 0;
        for (size_t k: parts)
        {
            size_t r = f(inplace ? (const B*)o.p + pos : in.p + pos, k, o.p + pos);
            if (r != k) pbt::fail("stream-size", fmt("a piece of %zu bytes produced %zu bytes", k, r));
            pos += k;
            if (!inplace) o.check("stream output", pos);
            else if (o.n > pos && memcmp(o.m.p + pos, in.m.p + pos, o.n - pos)) pbt::fail("beyond-result", "in-place: bytes after the piece changed");
        }
        in.check("stream input");
        o.check("stream output", o.n);
        return o.get(o.n);
    }

    template<class T, class B>
    bytes cipher_once(Src& s, Ctx& c, const bytes& key, const bytes& iv, const bytes& in_, bool dec)
    {
        In<B> k(s, key), v(s, iv);
        auto ks = std::span<const B>(k.p, k.n), vs = std::span<const B>(v.p, v.n);
        auto done = [&] { k.check("key"); v.check("iv"); };
        switch (s.below(8))
        {
        case 3:
        {
            c.note(" form=class");
            T a;
            a.initialize(k.p, k.n, v.p, v.n);
            done();
            return stream<B>(s, c, in_, 64, [&](const B* p, size_t n, B* o) { return dec ? a.decrypt(p, n, o) : a.encrypt(p, n, o); });
        }
        case 0:
        {
            c.note(" form=one-call(ptr)");
            In<B> in(s, in_);
            Out<B> o(s, in_.size());
            size_t r = dec ? mp::cipher::decrypt<T>(k.p, k.n, v.p, v.n, in.p, in.n, o.p)
                           : mp::cipher::encrypt<T>(k.p, k.n, v.p, v.n, in.p, in.n, o.p);
            done();
            in.check("input");
            if (r != in_.size()) pbt::fail("stream-size", fmt("one-call cipher returned %zu of %zu", r, in_.size()));
            o.check("output", r);
            return o.get(r);
        }
        case 1:
        {
            c.note(" form=one-call(by value)");
            In<B> in(s, in_);
            auto is = std::span<const B>(in.p, in.n);
            auto o = dec ? mp::cipher::decrypt<T, std::vector<B>>(ks, vs, is) : mp::cipher::encrypt<T, std::vector<B>>(ks, vs, is);
            done();
            in.check("input");
            return bytes(o.begin(), o.end());
        }
        case 2:
        {
            c.note(" form=one-call(by reference)");
            In<B> in(s, in_);
            auto is = std::span<const B>(in.p, in.n);
            std::vector<B> o(s.below(300), B(7));
            size_t r = dec ? mp::cipher::decrypt<T>(ks, vs, is, o) : mp::cipher::encrypt<T>(ks, vs, is, o);
            done();
            in.check("input");
            if (r != in_.size() || o.size() != r) pbt::fail("stream-size", fmt("one-call cipher returned %zu, container %zu, of %zu", r, o.size(), in_.size()));
            return bytes(o.begin(), o.end());
        }
        default:
        {
            c.note(" form=object");
            mp::cipher::apie<T> a;
            if (s.below(3) == 0)
            {
                c.note(" reused");
                bytes k2 = s.content(32), v2 = s.content(16), m2 = s.content(s.below(1200));
                a.initialize(k2, v2);
                stream<B>(s, c, m2, 64, [&](const B* p, size_t n, B* o) { return a.encrypt(p, n, o); });
            }
            if (s.below(2)) a.initialize(ks, vs);
            else a.initialize(k.p, k.n, v.p, v.n);
            done();
            return stream<B>(s, c, in_, 64, [&](const B* p, size_t n, B* o) { return dec ? a.decrypt(p, n, o) : a.encrypt(p, n, o); });
        }
        }
    }

    struct AeadOut { bytes text, tag; };
    template<class T, class B>
    AeadOut aead_once(Src& s, Ctx& c, const bytes& key, const bytes& iv, const bytes& aad, const bytes& in_, bool dec)
    {
        In<B> k(s, key), v(s, iv);
        auto ks = std::span<const B>(k.p, k.n), vs = std::span<const B>(v.p, v.n);
        auto done = [&] { k.check("key"); v.check("iv"); };
        u64 form = dec ? 3 + s.below(4) : s.below(7);
        if (form == 3)
        {
            // as documented: associated data, text, finalize, digest; the end of the associated
            // data may also be announced
            c.note(" form=class");
            T a;
            a.initialize(k.p, k.n, v.p, v.n);
            done();
            In<B> ad(s, aad);
            auto parts = split(s, aad.size(), 16);
            c.note(" aad-pieces=%s", show(parts).c_str());
            size_t pos = 0;
            for (size_t n: parts) a.aad(ad.p + pos, n), pos += n;
            ad.check("aad");
            if (s.below(2)) a.aadover();
            AeadOut r;
            if (!in_.empty() || s.below(2)) r.text = stream<B>(s, c, in_, 64, [&](const B* p, size_t n, B* o) { return dec ? a.decrypt(p, n, o) : a.encrypt(p, n, o); });
            a.finalize();
            r.tag = plain_digest<B>(s, a);
            return r;
        }
        if (form < 3)
        {
            In<B> in(s, in_), ad(s, aad);
            auto is = std::span<const B>(in.p, in.n), as = std::span<const B>(ad.p, ad.n);
            AeadOut r;
            if (form == 0)
            {
                c.note(" form=one-call(ptr)");
                Out<B> o(s, in_.size()), t(s, 16);
                auto [cs, ds] = mp::aead::encrypt<T>(k.p, k.n, v.p, v.n, ad.p, ad.n, in.p, in.n, o.p, t.p);
                if (cs != in_.size() || ds != 16) pbt::fail("stream-size", fmt("one-call aead returned %zu,%zu", size_t(cs), size_t(ds)));
                o.check("ciphertext", cs);
                t.check("tag", ds);
                r = {o.get(cs), t.get(ds)};
            }
            else if (form == 1)
            {
                c.note(" form=one-call(by value)");
                auto [ct, tg] = mp::aead::encrypt<T, std::vector<B>>(ks, vs, as, is);
                r = {bytes(ct.begin(), ct.end()), bytes(tg.begin(), tg.end())};
            }
            else
            {
                c.note(" form=one-call(by reference)");
                std::vector<B> ct(s.below(300), B(1)), tg(s.below(40), B(1));
                auto [cs, ds] = mp::aead::encrypt<T>(ks, vs, as, is, ct, tg);
                if (cs != in_.size() || ds != 16 || ct.size() != cs || tg.size() != ds) pbt::fail("stream-size", "one-call aead sizes");
                r = {bytes(ct.begin(), ct.end()), bytes(tg.begin(), tg.end())};
            }
            in.check("input");
            ad.check("aad");
            done();
            return r;
        }
        c.note(" form=object");
        mp::aead::apie<T> a;
        if (s.below(3) == 0)
        {
            c.note(" reused");
            bytes k2 = s.content(32), v2 = s.content(12), a2 = s.content(s.below(100)), m2 = s.content(s.below(1200));
            a.initialize(k2, v2);
            u64 upto = s.below(4);
            if (upto >= 1) a.aad(a2);
            if (upto >= 2) stream<B>(s, c, m2, 64, [&](const B* p, size_t n, B* o) { return a.encrypt(p, n, o); });
            if (upto >= 3) take<B, 16>(s, c, a);
        }
        if (s.below(2)) a.initialize(ks, vs);
        else a.initialize(k.p, k.n, v.p, v.n);
        done();
        {
            In<B> ad(s, aad);
            auto parts = split(s, aad.size(), 16);
            c.note(" aad-pieces=%s", show(parts).c_str());
            size_t pos = 0;
            for (size_t n: parts)
            {
                if (n == 0 && aad.empty() && s.below(2)) continue;   // not calling at all
                if (s.below(2)) a.aad(std::span<const B>(ad.p + pos, n));
                else a.aad(ad.p + pos, n);
                pos += n;
            }
            ad.check("aad");
        }
        AeadOut r;
        if (in_.empty() && s.below(2)) c.note(" no-text-call");
        else r.text = stream<B>(s, c, in_, 64, [&](const B* p, size_t n, B* o) { return dec ? a.decrypt(p, n, o) : a.encrypt(p, n, o); });
        r.tag = take<B, 16>(s, c, a);
        return r;
    }

    // ---- kdf ------------------------------------------------------------------------------
    template<class B, class A>
    bytes derive_obj(Src& s, Ctx& c, A& a, size_t n)
    {
        switch (s.below(4))
        {
        case 0:
        {
            Out<B> o(s, n);
            size_t r = a.derive(o.p, n);
            if (r != n) pbt::fail("derive-size", fmt("derive returned %zu of %zu", r, n));
            o.check("key", n);
            return o.get(n);
        }
        case 1:
        {
            std::vector<B> v(s.below(80), B(2));
            size_t r = a.derive(v, n);
            if (r != n || v.size() != n) pbt::fail("derive-size", fmt("derive(vector&,%zu) returned %zu, size %zu", n, r, v.size()));
            return bytes(v.begin(), v.end());
        }
        case 2:
        {
            auto v = a.template derive<std::vector<B>>(n);
            if (v.size() != n) pbt::fail("derive-size", fmt("derive<vector>(%zu) has size %zu", n, v.size()));
            return bytes(v.begin(), v.end());
        }
        default:
        {
            size_t cap = n + s.below(20);
            Out<B> o(s, cap);
            std::span<B> sp(o.p, cap);
            size_t r = a.derive(sp, n);
            c.note(" span %zu", cap);
            if (r != n) pbt::fail("derive-size", fmt("derive(span %zu,%zu) returned %zu", cap, n, r));
            o.check("key", n);
            return o.get(n);
        }
        }
    }
    // each call returns the next part of the key
    template<class B, class A>
    bytes derive_parts(Src& s, Ctx& c, A& a, size_t n)
    {
        if (s.below(2) == 0) return derive_obj<B>(s, c, a, n);
        auto parts = split(s, n, 32);
        c.note(" pieces=%s", show(parts).c_str());
        if (parts.size() > 1) c.label("parts");
        bytes r;
        for (size_t k: parts)
        {
            bytes x = derive_obj<B>(s, c, a, k);
            r.insert(r.end(), x.begin(), x.end());
        }
        return r;
    }
    template<class B, class A>
    bytes derive_plain(Src& s, Ctx& c, A& a, size_t n)
    {
        auto parts = split(s, n, 32);
        c.note(" pieces=%s", show(parts).c_str());
        if (parts.size() > 1) c.label("parts");
        Out<B> o(s, n);
        size_t pos = 0;
        for (size_t k: parts)
        {
            size_t r = a.derive(o.p + pos, k);
            if (r != k) pbt::fail("derive-size", fmt("class derive returned %zu of %zu", r, k));
            pos += k;
            o.check("key", pos);
        }
        return o.get(n);
    }
    template<class T, class B>
    bytes hkdf_once(Src& s, Ctx& c, const bytes& ikm, const bytes& salt, const bytes& info, size_t n)
    {
        In<B> i(s, ikm), sa(s, salt), inf(s, info);
        auto is = std::span<const B>(i.p, i.n), ss = std::span<const B>(sa.p, sa.n), fs = std::span<const B>(inf.p, inf.n);
        bytes r;
        switch (s.below(7))
        {
        case 3:
        {
            c.note(" form=class");
            T a;
            a.initialize(i.p, i.n, sa.p, sa.n, inf.p, inf.n);
            r = derive_plain<B>(s, c, a, n);
            break;
        }
        case 0:
        {
            c.note(" form=one-call(ptr)");
            Out<B> o(s, n);
            size_t k = mp::kdf::derive<T>(i.p, i.n, sa.p, sa.n, inf.p, inf.n, o.p, n);
            if (k != n) pbt::fail("derive-size", fmt("one-call derive returned %zu of %zu", k, n));
            o.check("key", n);
            r = o.get(n);
            break;
        }
        case 1:
        {
            c.note(" form=one-call(by value)");
            auto v = mp::kdf::derive<T, std::vector<B>>(is, ss, fs, n);
            r = bytes(v.begin(), v.end());
            break;
        }
        case 2:
        {
            c.note(" form=one-call(by reference)");
            std::vector<B> v(s.below(90), B(9));
            size_t k = mp::kdf::derive<T>(is, ss, fs, v, n);
            if (k != n || v.size() != n) pbt::fail("derive-size", fmt("one-call derive returned %zu of %zu", k, n));
            r = bytes(v.begin(), v.end());
            break;
        }
        default:
        {
            c.note(" form=object");
            mp::kdf::apie<T> a;
            if (s.below(2))
            {
                c.note(" reused");
                bytes x = s.content(s.below(200)), y = s.content(s.below(200)), z = s.content(s.below(200));
                a.initialize(x, y, z);
                if (s.below(2)) derive_obj<B>(s, c, a, s.below(100));
            }
            if (s.below(2)) a.initialize(is, ss, fs);
            else a.initialize(i.p, i.n, sa.p, sa.n, inf.p, inf.n);
            r = derive_parts<B>(s, c, a, n);
        }
        }
        i.check("ikm");
        sa.check("salt");
        inf.check("info");
        return r;
    }
    template<class T, class B>
    bytes pbkdf_once(Src& s, Ctx& c, const bytes& ikm, const bytes& salt, size_t it, size_t n)
    {
        In<B> i(s, ikm), sa(s, salt);
        auto is = std::span<const B>(i.p, i.n), ss = std::span<const B>(sa.p, sa.n);
        bytes r;
        switch (s.below(7))
        {
        case 3:
        {
            c.note(" form=class");
            T a;
            a.initialize(i.p, i.n, sa.p, sa.n, it);
            r = derive_plain<B>(s, c, a, n);
            break;
        }
        case 0:
        {
            c.note(" form=one-call(ptr)");
            Out<B> o(s, n);
            size_t k = mp::kdf::derive<T>(i.p, i.n, sa.p, sa.n, it, o.p, n);
            if (k != n) pbt::fail("derive-size", fmt("one-call derive returned %zu of %zu", k, n));
            o.check("key", n);
            r = o.get(n);
            break;
        }
        case 1:
        {
            c.note(" form=one-call(by value)");
            auto v = mp::kdf::derive<T, std::vector<B>>(is, ss, it, n);
            r = bytes(v.begin(), v.end());
            break;
        }
        case 2:
        {
            c.note(" form=one-call(by reference)");
            std::vector<B> v(s.below(90), B(9));
            size_t k = mp::kdf::derive<T>(is, ss, it, v, n);
            if (k != n || v.size() != n) pbt::fail("derive-size", fmt("one-call derive returned %zu of %zu", k, n));
            r = bytes(v.begin(), v.end());
            break;
        }
        default:
        {
            c.note(" form=object");
            mp::kdf::apie<T> a;
            if (s.below(2))
            {
                c.note(" reused");
                bytes x = s.content(s.below(200)), y = s.content(s.below(200));
                a.initialize(x, y, 1 + s.below(3));
                if (s.below(2)) derive_obj<B>(s, c, a, s.below(100));
            }
            if (s.below(2)) a.initialize(is, ss, it);
            else a.initialize(i.p, i.n, sa.p, sa.n, it);
            r = derive_parts<B>(s, c, a, n);
        }
        }
        i.check("ikm");
        sa.check("salt");
        return r;
    }

    // ---- variants -------------------------------------------------------------------------
    enum Need { any, sha, ssse3, avx2 };
    inline bool have(Need n)
    {
        static const bool f[4] = {true, cpu("sha"), cpu("ssse3"), cpu("avx2")};
        return f[n];
    }
    template<class T> struct Tag { using type = T; };
    // byte type drawn per case: uchar mostly
    template<class F> auto with_byte(Src& s, F f)
    {
        switch (s.below(4))
        {
        case 2: return f(Tag<char>{});
        case 3: return f(Tag<signed char>{});
        default: return f(Tag<unsigned char>{});
        }
    }
}

// X(reference algorithm, milo name, cpu need)
#define DRV_HASHES(X) \
    X(sha1, sha_1_160, any) X(sha224, sha_2_224, any) X(sha256, sha_2_256, any) X(sha384, sha_2_384, any) \
    X(sha512, sha_2_512, any) X(sha512_224, sha_2_512_224, any) X(sha512_256, sha_2_512_256, any) \
    X(sha1, sha_1_160_sw, any) X(sha224, sha_2_224_sw, any) X(sha256, sha_2_256_sw, any) X(sha384, sha_2_384_sw, any) \
    X(sha512, sha_2_512_sw, any) X(sha512_224, sha_2_512_224_sw, any) X(sha512_256, sha_2_512_256_sw, any) \
    X(sha1, sha_1_160_hw_x86_64_ni, sha) X(sha224, sha_2_224_hw_x86_64_ni, sha) X(sha256, sha_2_256_hw_x86_64_ni, sha)
#define DRV_CIPHERS(X) \
    X(cipher_chacha_20, any) X(cipher_chacha_20_sw, any) X(cipher_chacha_20_hw_x86_64_ssse_3, ssse3) X(cipher_chacha_20_hw_x86_64_avx_2, avx2)
