// Encoding and decoding through every call form.
#pragma once
#include "drv.h"
#include <optional>

namespace codec
{
    using namespace drv;
    using milo::error;
    struct Dec { bool ok; bytes out; };
    inline error stale(Src& s)
    {
        static const error v[] = {error::none, error::size, error::aead_verify, error::codec_base_16_decode, error::codec_base_64_decode, error::codec_base_64_encode};
        return v[s.below(6)];
    }
    template<class T, class B> bytes encode_b(Src& s, Ctx& c, const bytes& m, size_t want)
    {
        In<B> in(s, m);
        auto is = std::span<const B>(in.p, in.n);
        size_t es = s.below(2) ? mp::codec::apie<T>::encode_size(in.p, in.n) : mp::codec::apie<T>::encode_size(is);
        if (es != want) pbt::fail("encode-size", fmt("encode_size says %zu, expected %zu", es, want));
        bytes r;
        auto done = [&](auto& v) { r.assign(v.begin(), v.end()); };
        switch (s.below(7))
        {
        case 0: { Out<B> o(s, es); size_t n = mp::codec::encode<T>(in.p, in.n, o.p); o.check("encoding", n); r = o.get(n); if (n > es) pbt::fail("encode-size", "more than encode_size"); break; }
        case 1: { std::vector<B> v(s.below(80), B(1)); size_t n = mp::codec::encode<T>(is, v); if (n != v.size()) pbt::fail("encode-size", "container size"); done(v); break; }
        case 2: { auto v = mp::codec::encode<T, std::string>(is); done(v); break; }
        case 3: { auto v = mp::codec::apie<T>::template encode<std::vector<B>>(is); done(v); break; }
        case 4: { std::string v(s.below(80), 'x'); size_t n = mp::codec::apie<T>::encode(is, v); if (n != v.size()) pbt::fail("encode-size", "container size"); done(v); break; }
        case 5: { Out<B> o(s, es); size_t n = T::encode(in.p, in.n, o.p); o.check("encoding", n); r = o.get(n); break; }
        default: { Out<B> o(s, es); size_t n = mp::codec::apie<T>::encode(in.p, in.n, o.p); o.check("encoding", n); r = o.get(n); }
        }
        in.check("input");
        return r;
    }
    template<class T> bytes encode_any(Src& s, Ctx& c, const bytes& m, size_t want)
    {
        return with_byte(s, [&](auto t) { return encode_b<T, typename decltype(t)::type>(s, c, m, want); });
    }
    // max: the most a caller must provide for this text
    template<class T, class B> Dec decode_b(Src& s, Ctx& c, const bytes& t, size_t max, error::code code)
    {
        In<B> in(s, t);
        auto is = std::span<const B>(in.p, in.n);
        size_t ds = s.below(2) ? mp::codec::apie<T>::decode_size(in.p, in.n) : mp::codec::apie<T>::decode_size(is);
        if (ds > max) pbt::fail("decode-size", fmt("decode_size says %zu, at most %zu expected", ds, max));
        Dec r{};
        error e = stale(s);
        auto by_ref = [&](auto n, auto& v)
        {
            if (n != v.size()) pbt::fail("decode-size", fmt("returned %zu, container has %zu", size_t(n), size_t(v.size())));
            r.out.assign(v.begin(), v.end());
        };
        auto judge = [&]
        {
            if (e && !(e == code)) pbt::fail("error-code", "a decoding failure carries another error");
            r.ok = !e;
        };
        auto guarded = [&](auto f)
        {
            try { f(); r.ok = true; }
            catch (const error& x) { if (!(x == code)) pbt::fail("error-code", "a decoding failure throws another error"); r.ok = false; r.out.clear(); }
        };
        switch (s.below(9))
        {
        case 0: { Out<B> o(s, ds); size_t n = mp::codec::decode<T>(in.p, in.n, o.p, e); judge(); if (n > ds) pbt::fail("decode-size", "more than decode_size"); if (r.ok) o.check("decoding", n); else o.check("decoding", ds); r.out = o.get(n); break; }
        case 1: { Out<B> o(s, ds); guarded([&] { size_t n = mp::codec::decode<T>(in.p, in.n, o.p); o.check("decoding", n); r.out = o.get(n); }); o.check("decoding", ds); break; }
        case 2: { std::vector<B> v(s.below(80), B(1)); size_t n = mp::codec::decode<T>(is, v, e); judge(); by_ref(n, v); break; }
        case 3: { std::vector<B> v(s.below(80), B(1)); guarded([&] { size_t n = mp::codec::decode<T>(is, v); by_ref(n, v); }); break; }
        case 4: guarded([&] { auto v = mp::codec::decode<T, std::string>(is); r.out.assign(v.begin(), v.end()); }); break;
        case 5: guarded([&] { auto v = mp::codec::apie<T>::template decode<std::vector<B>>(is); r.out.assign(v.begin(), v.end()); }); break;
        case 6: { std::string v(s.below(80), 'x'); size_t n = mp::codec::apie<T>::decode(is, v, e); judge(); by_ref(n, v); break; }
        case 7: { Out<B> o(s, ds); size_t n = T::decode(in.p, in.n, o.p, e); judge(); if (n > ds) pbt::fail("decode-size", "more than decode_size"); o.check("decoding", r.ok ? n : ds); r.out = o.get(n); break; }
        default: { Out<B> o(s, ds); size_t n = mp::codec::apie<T>::decode(in.p, in.n, o.p, e); judge(); if (n > ds) pbt::fail("decode-size", "more than decode_size"); o.check("decoding", r.ok ? n : ds); r.out = o.get(n); }
        }
        in.check("input");
        if (r.ok && r.out.size() > ds) pbt::fail("decode-size", fmt("decode_size said %zu, %zu bytes decoded", ds, r.out.size()));
        if (r.ok && r.out.size() != ds) pbt::fail("decode-size", fmt("decode_size said %zu for a valid text of %zu bytes", ds, r.out.size()));
        return r;
    }
    template<class T> Dec decode_any(Src& s, Ctx& c, const bytes& t, size_t max, error::code code)
    {
        return with_byte(s, [&](auto b) { return decode_b<T, typename decltype(b)::type>(s, c, t, max, code); });
    }
}
