"""Generates C++ snippets that use the library through drawn call forms, containers and byte types,
together with every byte they must produce (computed here)."""
from lib import model as M

PRELUDE = r'''
#include <array>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <initializer_list>
#include <list>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
using std::size_t;
namespace gen
{
    using u64 = std::uint64_t;
    using u_char = unsigned char;
    using s_char = signed char;
    template<class B, size_t N> constexpr std::array<B, N> mk(u64 pat)
    {
        std::array<B, N> a{};
        u64 x = pat;
        for (size_t i = 0; i < N; i++)
        {
            unsigned char c;
            if (pat == 0) c = 0;
            else if (pat == 1) c = 0xff;
            else if (pat == 2) c = static_cast<unsigned char>(i);
            else
            {
                x = x * 6364136223846793005u + 1442695040888963407u;
                c = static_cast<unsigned char>(x >> 56);
            }
            a[i] = static_cast<B>(c);
        }
        return a;
    }
    template<class B, class... T> constexpr std::array<B, sizeof...(T)> lit(T... t) { return {static_cast<B>(t)...}; }
    template<class B, size_t N> constexpr std::array<B, N> filled(int v)
    {
        std::array<B, N> a{};
        for (size_t i = 0; i < N; i++) a[i] = static_cast<B>(v);
        return a;
    }
    // a view of the user's own
    template<class B> struct own_view
    {
        using value_type = B;
        const B* p;
        size_t n;
        constexpr const B* data() const noexcept { return p; }
        constexpr size_t size() const noexcept { return n; }
    };
    // a fixed-size owner of the user's own
    template<class B, size_t N> struct own_fixed
    {
        using value_type = B;
        B a[N ? N : 1];
        constexpr own_fixed() noexcept : a{} {}
        constexpr B* data() noexcept { return a; }
        constexpr const B* data() const noexcept { return a; }
        constexpr size_t size() const noexcept { return N; }
    };
    // a resizable owner of the user's own
    template<class B> struct own_dyn
    {
        using value_type = B;
        std::vector<B> v;
        constexpr own_dyn() noexcept : v() {}
        constexpr B* data() noexcept { return v.data(); }
        constexpr const B* data() const noexcept { return v.data(); }
        constexpr size_t size() const noexcept { return v.size(); }
        constexpr void reserve(size_t n) { v.reserve(n); }
        constexpr void resize(size_t n, B b) { v.resize(n, b); }
    };
    // a view of the user's own with ordinary functions and no default constructor
    template<class B> struct own_plain
    {
        using value_type = B;
        B* p;
        size_t n;
        own_plain(B* p_, size_t n_) : p(p_), n(n_) {}
        B* data() noexcept { return p; }
        const B* data() const noexcept { return p; }
        size_t size() const noexcept { return n; }
    };
    // the same, with a default constructor
    template<class B> struct own_plain_0 : own_plain<B>
    {
        own_plain_0() : own_plain<B>(nullptr, 0) {}
        own_plain_0(B* p_, size_t n_) : own_plain<B>(p_, n_) {}
    };
    template<class C, class A> constexpr C from(const A& a)
    {
        C c{};
        if constexpr (requires { c.resize(size_t(), typename C::value_type()); }) c.resize(a.size(), typename C::value_type());
        for (size_t i = 0; i < a.size(); i++) c.data()[i] = a[i];
        return c;
    }
    template<class C> constexpr C sized(size_t n, int v)
    {
        C c{};
        c.resize(n, static_cast<typename C::value_type>(v));
        return c;
    }
    template<size_t N> struct rec
    {
        unsigned char b[N]{};
        size_t n = 0;
        constexpr void byte(unsigned char c) { if (n < N) b[n] = c; n++; }
        constexpr void num(u64 v) { for (int i = 0; i < 8; i++) byte(static_cast<unsigned char>(v >> (8 * i))); }
        template<class P> constexpr void raw(const P* p, size_t k) { num(k); for (size_t i = 0; i < k; i++) byte(static_cast<unsigned char>(p[i])); }
        template<class C> constexpr void put(const C& c) { raw(c.data(), c.size()); }
    };
}
'''

BYTES = ['unsigned char', 'char', 'signed char']
HDR = {'hash': 'hash/sha.h', 'hmac': 'mac/hmac.h', 'poly': 'mac/poly.h', 'hkdf': 'kdf/hkdf.h', 'pbkdf2': 'kdf/pbkdf.h',
       'chacha': 'cipher/chacha.h', 'aead': 'aead/chacha.h', 'codec': 'codec/base.h'}


def mk(pat, n):
    if pat == 0:
        return bytes(n)
    if pat == 1:
        return b'\xff' * n
    if pat == 2:
        return bytes(i & 255 for i in range(n))
    x, r = pat, bytearray()
    for _ in range(n):
        x = (x * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        r.append(x >> 56)
    return bytes(r)


# types that are not bytes
NOT_BYTES = ['int', 'short', 'unsigned', 'wchar_t', 'char8_t', 'char16_t', 'char32_t', 'std::byte', 'long', 'float', 'unsigned short']


class In:
    def __init__(self, g, name, B, data, real=None):
        self.g, self.name, self.B, self.data = g, name, B, data
        self.real = real        # the type written, when a mutation replaces B
        self.n = len(data)
        self.site = None

    @property
    def ptr(self):
        self.g.used(self)
        if self.g.site('untyped memory'):
            return 'static_cast<const void*>(%s.data()), %d' % (self.name, self.n)
        return '%s.data(), %d' % (self.name, self.n)

    def at(self, off):
        self.g.used(self)
        return '%s.data() + %d' % (self.name, off) if off else '%s.data()' % self.name

    # an expression of a contiguous container holding bytes [off, off+len)
    def cont(self, off=0, length=None):
        g, B = self.g, self.real or self.B
        g.used(self)
        if g.site('container without contiguous bytes'):
            t = ['std::list<%s>', 'std::deque<%s>', 'std::initializer_list<%s>', 'std::optional<%s>', 'std::tuple<%s>'][g.mutate % 5] % B
            return '%s{%s}' % (t, '%s(1)' % B.replace('unsigned char', 'gen::u_char').replace('signed char', 'gen::s_char') if 'char' in B and ' ' in B else B + '(1)')
        if g.site('address without a size'):
            return '%s.data()' % self.name
        whole = length is None or (off == 0 and length == self.n)
        n = self.n if length is None else length
        k = g.s.below(11)
        sp = 'std::span<const %s>(%s, %d)' % (B, self.at(off), n)
        if not whole:
            if k in (5, 6):
                return g.var('const gen::own_view<%s>' % B, '{%s, %d}' % (self.at(off), n), 'own-view')
            if k == 1:
                g.label('vector')
                return 'gen::from<std::vector<%s>>(%s)' % (B, sp)
            if k == 4 and self.B == 'char':
                if self.real:
                    return sp
                g.label('string_view')
                return 'std::string_view(%s, %d)' % (self.at(off), n)
            if k == 3:
                g.label('span-fixed')
                return 'std::span<const %s, %d>(%s, %d)' % (B, n, self.at(off), n)
            g.label('span')
            return sp
        if k == 0:
            g.label('array')
            return self.name
        if k == 1:
            return g.var('auto', 'gen::from<std::vector<%s>>(%s)' % (B, self.name), 'vector')
        if k == 2:
            g.label('span')
            return sp
        if k == 3:
            return g.var('const std::span<const %s, %d>' % (B, n), '(%s)' % self.name, 'span-fixed')
        if k == 4:
            if self.B == 'char':
                t = g.s.below(2)
                if self.real:
                    return sp
                if t:
                    return g.var('const auto', 'gen::from<std::string>(%s)' % self.name, 'string')
                return g.var('auto', 'std::string_view(%s.data(), %d)' % (self.name, n), 'string_view')
            return self.name
        if k == 5:
            return g.var('const gen::own_view<%s>' % B, '{%s.data(), %d}' % (self.name, n), 'own-view')
        if k == 6:
            return g.var('auto', 'gen::from<gen::own_fixed<%s, %d>>(%s)' % (B, n, self.name), 'own-fixed')
        if k == 7:
            return g.var('const auto', 'gen::from<gen::own_dyn<%s>>(%s)' % (B, self.name), 'own-dyn')
        if k == 8 and not g.ce and g.s.below(2):
            v = g.var('auto', self.name, 'array')
            return g.var('gen::own_plain%s<%s>' % (g.s.pick(['', '_0']), B), '(%s.data(), %d)' % (v, n), 'own-plain')
        if k == 8:
            v = g.var('auto', self.name, 'array')
            return g.var('std::span<%s>' % B, '(%s.data(), %d)' % (v, n), 'span-mutable')
        if k == 9:
            g.label('temporary')
            return 'gen::from<std::vector<%s>>(%s)' % (B, self.name)
        v = g.var('auto', self.name, 'array')
        return v


class Gen:
    def __init__(self, s, ce, mutate=None):
        # mutate: number of the site to make invalid; the choices stay those of the valid program
        self.s, self.ce, self.mutate, self.sites, self.live = s, ce, mutate, [], set()
        self.lines, self.exp, self.desc, self.labels = [], bytearray(), [], set()
        self.nv = 0
        self.headers = set()

    def label(self, l):
        self.labels.add(l)

    # a place where the program could be made invalid in the named way; true if it is to be
    def site(self, kind, live=True):
        self.sites.append(kind)
        if live:
            self.live.add(len(self.sites) - 1)
        return self.mutate == len(self.sites) - 1

    def used(self, i):
        if i.site is not None:
            self.live.add(i.site)

    def bad_byte(self):
        return NOT_BYTES[(self.mutate * 7 + len(self.lines)) % len(NOT_BYTES)]

    def name(self, p='v'):
        self.nv += 1
        return '%s%d' % (p, self.nv)

    def var(self, typ, init, label=None):
        v = self.name()
        if typ == 'auto' or typ == 'const auto':
            self.lines.append('%s %s = %s;' % (typ, v, init))
        else:
            self.lines.append('%s %s%s;' % (typ, v, init))
        if label:
            self.label(label)
        return v

    def line(self, l):
        self.lines.append(l)

    # ---- recording
    def num(self, expr, v):
        self.line('r.num(%s);' % expr)
        self.exp += v.to_bytes(8, 'little')

    def put(self, expr, data):
        self.line('r.put(%s);' % expr)
        self.exp += len(data).to_bytes(8, 'little') + data

    def input(self, n, data=None, B=None):
        B = B or self.s.pick(BYTES)
        v = self.name('a')
        real = self.bad_byte() if self.site('input that is not bytes', False) else None
        W = real or B
        if data is None:
            pat = self.s.below(40)
            data = mk(pat, n)
            self.line('const auto %s = gen::mk<%s, %d>(%d);' % (v, W, n, pat))
        else:
            self.line('const std::array<%s, %d> %s = gen::lit<%s>(%s);' % (W, len(data), v, W, ', '.join('0x%x' % c for c in data)))
        i = In(self, v, B, data, real)
        i.site = len(self.sites) - 1
        return i

    # output of `full` bytes at most `want`, whatever fits; returns (expression, after) where
    # after(n) records size and contents; min_cap: what the call needs
    def out_cont(self, result, min_cap=None, fixed_ok=True, prefer=None):
        """result: bytes the operation would produce at most.  Returns (expr, effective bytes, recorder)"""
        s = self.s
        B = s.pick(BYTES)
        bad = self.site('output that is not bytes')
        if bad:
            B = self.bad_byte()
        const = self.site('read-only output')
        auto = 'const auto' if const else 'auto'
        k = s.below(9 if self.ce else 11) if fixed_ok else s.below(4)
        if k <= 3:
            t = ['std::vector<%s>' % B, 'gen::own_dyn<%s>' % B, 'std::vector<%s>' % B if bad else 'std::string', 'std::vector<%s>' % B][k]
            self.label('out-' + t.split('<')[0])
            v = self.var(auto, 'gen::sized<%s>(%d, 0x33)' % (t, s.below(40)))
            return v, result, lambda: self.put(v, result)
        cap = (len(result) + s.below(9)) if min_cap is not None else s.below(len(result) + 12)
        if cap == 0 and k in (4, 7):
            cap = 1 if min_cap is None or min_cap <= 1 else min_cap
        eff = result[:cap]
        whole = eff + b'\x77' * (cap - len(eff))
        if k == 4:
            v = self.var(auto, 'gen::filled<%s, %d>(0x77)' % (B, cap), 'out-array')
            return v, eff, lambda: self.put(v, whole)
        base = self.var('auto', 'gen::filled<%s, %d>(0x77)' % (B, cap + 3))
        tail = b'\x77' * 3
        if const:
            B = 'const ' + B
        if k == 5 or k == 8:
            v = self.var('std::span<%s>' % B, '(%s.data(), %d)' % (base, cap), 'out-span')
        elif k == 6:
            v = self.var('std::span<%s, %d>' % (B, cap), '(%s.data(), %d)' % (base, cap), 'out-span-fixed')
        elif k >= 9:
            v = self.var('gen::own_plain%s<%s>' % ('_0' if k == 10 else '', B), '(%s.data(), %d)' % (base, cap), 'out-own-plain')
        else:
            B = B.replace('const ', '')
            v = self.var(auto, 'gen::from<gen::own_fixed<%s, %d>>(gen::filled<%s, %d>(0x77))' % (B, cap, B, cap), 'out-own-fixed')
            return v, eff, lambda: self.put(v, whole)
        return v, eff, lambda: self.put(base, whole + tail)

    def out_ptr(self, result):
        B = self.s.pick(BYTES)
        if self.site('output that is not bytes'):
            B = self.bad_byte()
        v = self.var('const auto' if self.site('read-only output') else 'auto', 'gen::filled<%s, %d>(0x77)' % (B, len(result) + 3))
        return v + '.data()', lambda: self.put(v, result + b'\x77' * 3)

    def dyn_type(self):
        B = self.s.pick(BYTES)
        t = self.s.pick(['std::vector<%s>' % B, 'gen::own_dyn<%s>' % B, 'std::string', 'milo::container::bytes_dynamic', 'milo::container::chars_dynamic'])
        if self.site('result that is not bytes'):
            return 'std::vector<%s>' % self.bad_byte()
        if self.site('fixed type for a result of any size'):
            return '%s<%s, 16>' % (['std::array', 'gen::own_fixed'][self.mutate % 2], B)
        if self.site('view as a result'):
            return ['std::span<%s>' % B, 'gen::own_view<%s>' % B, 'std::string_view'][self.mutate % 3]
        return t

    def fix_type(self, n, limit=None):
        B = self.s.pick(BYTES)
        k = self.s.below(4)
        if self.site('result that is not bytes'):
            return 'std::array<%s, %d>' % (self.bad_byte(), n)
        if self.site('resizable type without a size'):
            return ['std::vector<%s>' % B, 'std::string', 'gen::own_dyn<%s>' % B][self.mutate % 3]
        if limit and self.site('fixed result larger than the digest'):
            n = limit + [1, 2, 17, 64, 1000][self.mutate % 5]
        return ['std::array<%s, %d>' % (B, n), 'gen::own_fixed<%s, %d>' % (B, n), 'milo::container::bytes_static<%d>' % n, 'milo::container::chars_static<%d>' % n][k]

    # ---- splitting
    def parts(self, n, mx=5):
        s = self.s
        r = []
        for _ in range(s.below(mx)):
            if sum(r) >= n:
                break
            r.append(min(n - sum(r), s.pick([0, 1, 15, 16, 17, 63, 64, 65, s.below(n + 1)])))
        if sum(r) < n or not r:
            r.append(n - sum(r))
        return r

    # goes on with the object, a copy of it, what it was moved or assigned to, or itself after assigning it to itself
    def alter(self, obj, rate=7):
        if self.s.below(rate) != rate - 1:
            return obj
        k = self.s.below(6)
        if k < 2:
            v = self.var('auto', obj, 'copied')
            return v if k else obj
        if k == 2:
            v = self.name()
            self.line('decltype(%s) %s;' % (obj, v))
            self.line('%s = %s;' % (v, obj))
            self.label('assigned')
            return v
        if k == 3:
            self.line('%s = static_cast<const decltype(%s)&>(%s);' % (obj, obj, obj))
            self.label('assigned-to-itself')
            return obj
        if k == 4:
            return self.var('auto', 'static_cast<decltype(%s)&&>(%s)' % (obj, obj), 'moved')
        # assigned over an object in the same state, which is then the one used
        v = self.var('auto', obj, 'assigned-over')
        self.line('%s = %s;' % (v, obj))
        return v

    def feed(self, obj, method, i, allow_copy=True):
        off = 0
        for k in self.parts(i.n):
            if allow_copy:
                obj = self.alter(obj)
            if self.s.below(2):
                self.line('%s.%s(%s, %d);' % (obj, method, i.at(off), k))
            else:
                self.line('%s.%s(%s);' % (obj, method, i.cont(off, k)))
            off += k
        return obj

    # ---- digests of a finished object
    def take(self, obj, dig, plain=False):
        s = self.s
        for _ in range(1 + s.below(2)):
            n = s.below(len(dig) + 8)
            k = s.below(2 if plain else 7)
            if k == 0:
                p, after = self.out_ptr(dig)
                self.num('%s.digest(%s)' % (obj, p), len(dig))
                after()
            elif k == 1:
                p, after = self.out_ptr(dig[:n])
                self.num('%s.digest(%s, %d)' % (obj, p, n), min(n, len(dig)))
                after()
            elif k == 2:
                v, eff, after = self.out_cont(dig)
                self.num('%s.digest(%s)' % (obj, v), len(eff))
                after()
            elif k == 3:
                v, eff, after = self.out_cont(dig[:n])
                self.num('%s.digest(%s, %d)' % (obj, v, n), len(eff))
                after()
            elif k == 4:
                if s.below(3) == 0:
                    self.put('%s.digest(%d)' % (obj, n), dig[:n])
                else:
                    self.put('%s.template digest<%s>(%d)' % (obj, self.dyn_type(), n), dig[:n])
            elif k == 5:
                m = 1 + s.below(len(dig))
                self.put('%s.template digest<%s>()' % (obj, self.fix_type(m, len(dig))), dig[:m])
            else:
                self.put('%s.digest()' % obj, dig)
        return obj

    # one-call digest forms: args_ptr, args_cont are functions giving argument text
    def once_digest(self, fn, T, args_ptr, args_cont, dig):
        s = self.s
        n = s.below(len(dig) + 8)
        k = s.below(7)
        if k == 0:
            a = args_ptr()
            p, after = self.out_ptr(dig)
            self.num('%s<%s>(%s, %s)' % (fn, T, a, p), len(dig))
            after()
        elif k == 1:
            a = args_ptr()
            p, after = self.out_ptr(dig[:n])
            self.num('%s<%s>(%s, %s, %d)' % (fn, T, a, p, n), min(n, len(dig)))
            after()
        elif k == 2:
            a = args_cont()
            v, eff, after = self.out_cont(dig)
            self.num('%s<%s>(%s, %s)' % (fn, T, a, v), len(eff))
            after()
        elif k == 3:
            a = args_cont()
            v, eff, after = self.out_cont(dig[:n])
            self.num('%s<%s>(%s, %s, %d)' % (fn, T, a, v, n), len(eff))
            after()
        elif k == 4:
            a = args_cont()
            t = '' if s.below(3) == 0 else ', ' + self.dyn_type()
            self.put('%s<%s%s>(%s, %d)' % (fn, T, t, a, n), dig[:n])
        elif k == 5:
            a = args_cont()
            m = 1 + s.below(len(dig))
            self.put('%s<%s, %s>(%s)' % (fn, T, self.fix_type(m, len(dig)), a), dig[:m])
        else:
            a = args_cont()
            self.put('%s<%s>(%s)' % (fn, T, a), dig)

    # ---- algorithm types
    WRONG = {
        'hash': ['mac::hmac<milo::primitive::hash::sha_2_256<>>', 'mac::poly_1305<>', 'cipher::chacha_20<>', 'codec::base_16<>', 'aead::chacha_20_poly_1305<>', 'kdf::hkdf<milo::primitive::mac::hmac<milo::primitive::hash::sha_2_256<>>>', None],
        'mac': ['hash::sha_2_256<>', 'cipher::chacha_20<>', 'aead::chacha_20_poly_1305<>', 'codec::base_64<>', 'kdf::pbkdf_2<milo::primitive::mac::hmac<milo::primitive::hash::sha_2_256<>>>', None],
        'kdf': ['hash::sha_2_512<>', 'mac::hmac<milo::primitive::hash::sha_2_256<>>', 'codec::base_16<>', 'cipher::chacha_20<>', None],
        'prf': ['hash::sha_2_256<>', 'mac::poly_1305<>', 'cipher::chacha_20<>', 'kdf::hkdf<milo::primitive::mac::hmac<milo::primitive::hash::sha_2_256<>>>', None],
        'inner hash': ['mac::poly_1305<>', 'mac::hmac<milo::primitive::hash::sha_2_256<>>', 'cipher::chacha_20<>', 'codec::base_16<>', None],
        'cipher': ['aead::chacha_20_poly_1305<>', 'hash::sha_2_256<>', 'mac::poly_1305<>', 'codec::base_16<>', None],
        'aead': ['cipher::chacha_20<>', 'mac::poly_1305<>', 'hash::sha_2_256<>', None],
        'codec': ['hash::sha_2_256<>', 'cipher::chacha_20<>', 'mac::poly_1305<>', None],
    }

    def kind(self, k, T):
        if not self.site('algorithm of the wrong kind (%s)' % k):
            return T
        self.headers |= {'hash/sha.h', 'mac/hmac.h', 'mac/poly.h', 'kdf/hkdf.h', 'kdf/pbkdf.h', 'cipher/chacha.h', 'aead/chacha.h', 'codec/base.h'}
        w = self.WRONG[k]
        w = w[(self.mutate * 5 + len(self.lines) + self.s.log[-1] if self.s.log else 0) % len(w)]
        return 'milo::primitive::' + w if w else 'int'

    def opts(self, sw, size):
        """option list and the digest size it leaves; size None: no digest"""
        s = self.s
        o, n = [], size
        if s.chance(3, 8):
            k = s.below(5)
            if k < 2 and size:
                n = 1 + s.below(size)
                big = self.site('digest size option larger than the digest')
                o.append('milo::option::digest_size<%d>' % (size + [1, 4, 8, 64][self.mutate % 4] if big else n))
                self.label('option-digest-size')
            if k > 0:
                o.append('milo::option::%s<milo::primitive::detail::%s>' % (s.pick(['impl_runtime', 'impl_enforce', 'impl_cpltime']), sw))
                self.label('option-impl')
            if len(o) > 1 and s.below(2):
                o.reverse()
            self.headers.add('../option.h')
        return ', '.join(o), n

    def hash_type(self):
        a = self.s.pick(M.HASHES)
        sw = {'sha_1_160': 'hash_sha_1_160_impl_sw', 'sha_2_224': 'hash_sha_2_256_impl_sw', 'sha_2_256': 'hash_sha_2_256_impl_sw'}.get(a, 'hash_sha_2_512_impl_sw')
        o, n = self.opts(sw, M.DSIZE[a])
        self.headers |= {'hash/sha.h', 'hash/apie.h'}
        return 'milo::primitive::hash::%s<%s>' % (a, o), a if n == M.DSIZE[a] else '%s/%d' % (a, n)

    def hmac_type(self):
        T, a = self.hash_type()
        self.headers |= {'mac/hmac.h', 'mac/apie.h'}
        if self.s.chance(1, 8):
            n = 1 + self.s.below(M.dsize(a))
            self.headers.add('../option.h')
            self.label('option-digest-size')
            return 'milo::primitive::mac::hmac<%s, milo::option::digest_size<%d>>' % (T, n), '%s:%d' % (a, n)
        return 'milo::primitive::mac::hmac<%s>' % self.kind('inner hash', T), a

    # ---- operations
    def plain(self, o, method, i):
        off = 0
        for k in self.parts(i.n):
            o = self.alter(o)
            self.line('%s.%s(%s, %d);' % (o, method, i.at(off), k))
            off += k
        return self.alter(o)

    def hash(self, mx):
        s = self.s
        T, a = self.hash_type()
        T = self.kind('hash', T)
        m = self.input(s.size(mx, M.bsize(a)))
        d = M.hash(a, m.data)
        f = s.below(4)
        self.desc.append('hash %s len=%d form=%d' % (a, m.n, f))
        if f == 0:
            self.once_digest('milo::primitive::hash::digest', T, lambda: m.ptr, lambda: m.cont(), d)
        elif f == 3:
            o = self.name('o')
            self.line('%s %s;' % (T, o))
            if s.below(3) == 2:
                x = self.input(s.below(150))
                self.line('%s.initialize();' % o)
                self.line('%s.update(%s);' % (o, x.ptr))
                if s.below(2):
                    self.line('%s.finalize();' % o)
                self.label('used before')
            self.line('%s.initialize();' % o)
            o = self.plain(o, 'update', m)
            self.line('%s.finalize();' % o)
            o = self.alter(o)
            self.take(o, d, True)
        else:
            o = self.name('o')
            self.line('milo::primitive::hash::apie<%s> %s;' % (T, o))
            if s.below(3) == 2:
                x = self.input(s.below(150))
                o = self.feed(o, 'update', x)
                if s.below(2):
                    o = self.take(o, M.hash(a, x.data))
                self.line('%s.initialize();' % o)
            o = self.feed(o, 'update', m)
            self.take(o, d)

    def _mac(self, T, key, m, of, fixed=False):
        """of(key, message): the expected tag; fixed: keys have one size"""
        s = self.s
        d = of(key.data, m.data)
        f = s.below(4)
        self.desc[-1] += ' form=%d' % f
        if f == 0:
            self.once_digest('milo::primitive::mac::digest', T, lambda: key.ptr + ', ' + m.ptr, lambda: key.cont() + ', ' + m.cont(), d)
            return
        o = self.name('o')
        used = s.below(3) == 2
        if used:
            x, y = self.input(key.n if fixed else s.size(200, 64)), self.input(s.below(150))
            self.label('used before')
        if f == 3:
            self.line('%s %s;' % (T, o))
            if used:
                self.line('%s.initialize(%s);' % (o, x.ptr))
                o = self.plain(o, 'update', y)
                if s.below(2):
                    self.line('%s.finalize();' % o)
            self.line('%s.initialize(%s);' % (o, key.ptr))
            o = self.plain(o, 'update', m)
            self.line('%s.finalize();' % o)
            o = self.alter(o)
            self.take(o, d, True)
            return
        k = s.below(4)
        A = 'milo::primitive::mac::apie<%s>' % T
        if used:
            self.line('%s %s(%s);' % (A, o, x.ptr if s.below(2) else x.cont()))
            o = self.feed(o, 'update', y)
            if s.below(2):
                o = self.take(o, of(x.data, y.data))
            self.line('%s.initialize(%s);' % (o, key.ptr if k % 2 else key.cont()))
        elif k == 0:
            self.line('%s %s(%s);' % (A, o, key.ptr))
        elif k == 1:
            self.line('%s %s(%s);' % (A, o, key.cont()))
        else:
            self.line('%s %s;' % (A, o))
            self.line('%s.initialize(%s);' % (o, key.ptr if k == 2 else key.cont()))
        o = self.feed(o, 'update', m)
        o = self.alter(o)
        o = self.take(o, d)
        if s.below(5) == 4:
            self.take(self.alter(o, 1), d)

    def hmac(self, mx):
        s = self.s
        T, a = self.hmac_type()
        T = self.kind('mac', T)
        key, m = self.input(s.size(200, M.bsize(a))), self.input(s.size(mx, M.bsize(a)))
        self.desc.append('hmac %s key=%d len=%d' % (a, key.n, m.n))
        self._mac(T, key, m, lambda k, x: M.hmac(a, k, x))

    def poly(self, mx):
        s = self.s
        self.headers |= {'mac/poly.h', 'mac/apie.h'}
        key, m = self.input(32), self.input(s.size(mx, 16))
        self.desc.append('poly1305 len=%d' % m.n)
        o, n = self.opts('mac_poly_1305_impl_sw', 16)
        self._mac(self.kind('mac', 'milo::primitive::mac::poly_1305<%s>' % o), key, m, lambda k, x: M.poly1305(k, x)[:n], True)

    def _kdf(self, T, ins, extra, of):
        """of(inputs): the key stream, long enough; extra: trailing argument text"""
        s = self.s
        full = of(*[i.data for i in ins])
        D = 'milo::primitive::kdf::derive'
        ptrs = lambda: ', '.join(i.ptr for i in ins) + extra
        conts = lambda: ', '.join(i.cont() for i in ins) + extra
        n = s.below(len(full) + 1)
        key = full[:n]
        f = s.below(7)
        self.desc[-1] += ' out=%d form=%d' % (n, f)
        if f == 0:
            a = ptrs()
            p, after = self.out_ptr(key)
            self.num('%s<%s>(%s, %s, %d)' % (D, T, a, p, n), n)
            after()
        elif f == 1:
            a = conts()
            v, eff, after = self.out_cont(key)
            self.num('%s<%s>(%s, %s, %d)' % (D, T, a, v, n), len(eff))
            after()
        elif f == 2:
            a = conts()
            t = '' if s.below(3) == 0 else ', ' + self.dyn_type()
            self.put('%s<%s%s>(%s, %d)' % (D, T, t, a, n), key)
        elif f == 3:
            a = conts()
            m = 1 + s.below(len(full))
            self.put('%s<%s, %s>(%s)' % (D, T, self.fix_type(m), a), full[:m])
        else:
            o = self.name('o')
            A = 'milo::primitive::kdf::apie<%s>' % T if f != 6 else T
            # the object keeps views of its inputs: they stay alive as variables
            rounds = [ins]
            while len(rounds) < 3 and s.below(3) == 2:
                rounds.insert(0, [self.input(s.below(80)) for _ in ins])
                self.label('used before')
            for r in rounds[:-1]:
                if r is rounds[0]:
                    self.line('%s %s;' % (A, o))
                self.line('%s.initialize(%s);' % (o, ', '.join(i.ptr for i in r) + extra))
                o = self.alter(o)
                if s.below(2):
                    old = of(*[i.data for i in r])
                    k = s.below(len(old) + 1)
                    p, after = self.out_ptr(old[:k])
                    self.num('%s.derive(%s, %d)' % (o, p, k), k)
                    after()
                    o = self.alter(o)
            if len(rounds) > 1:
                self.line('%s.initialize(%s);' % (o, ptrs()))
            elif f != 6 and s.below(2):
                self.line('%s %s(%s);' % (A, o, ptrs()))
            else:
                self.line('%s %s;' % (A, o))
                self.line('%s.initialize(%s);' % (o, ptrs()))
            pos = 0
            for _ in range(1 + s.below(3)):
                o = self.alter(o, 4)
                k = s.below(len(full) - pos + 1)
                part = full[pos:pos + k]
                g = s.below(1 if f == 6 else 4)
                if g == 0:
                    p, after = self.out_ptr(part)
                    self.num('%s.derive(%s, %d)' % (o, p, k), k)
                    after()
                elif g == 1:
                    v, eff, after = self.out_cont(part)
                    self.num('%s.derive(%s, %d)' % (o, v, k), len(eff))
                    after()
                    k = len(eff)
                elif g == 2:
                    t = s.below(3)
                    self.put('%s.derive(%d)' % (o, k) if t == 0 else '%s.template derive<%s>(%d)' % (o, self.dyn_type(), k), part)
                elif k:
                    self.put('%s.template derive<%s>()' % (o, self.fix_type(k)), part)
                pos += k

    def hkdf(self, mx):
        s = self.s
        T, a = self.hmac_type()
        self.headers |= {'kdf/hkdf.h', 'kdf/apie.h'}
        i, sa, inf = (self.input(s.size(min(mx, 150), 64)) for _ in range(3))
        self.desc.append('hkdf %s %d %d %d' % (a, i.n, sa.n, inf.n))
        self._kdf(self.kind('kdf', 'milo::primitive::kdf::hkdf<%s>' % self.kind('prf', T)), [i, sa, inf], '',
                  lambda x, y, z: M.hkdf(a, x, y, z, 2 * M.msize(a) + min(9, M.msize(a))))

    def pbkdf2(self, mx):
        s = self.s
        T, a = self.hmac_type()
        self.headers |= {'kdf/pbkdf.h', 'kdf/apie.h'}
        i, sa = (self.input(s.size(min(mx, 150), 64)) for _ in range(2))
        it = 1 + s.below(3)
        self.desc.append('pbkdf2 %s %d %d it=%d' % (a, i.n, sa.n, it))
        self._kdf(self.kind('kdf', 'milo::primitive::kdf::pbkdf_2<%s>' % self.kind('prf', T)), [i, sa], ', %d' % it,
                  lambda x, y: M.pbkdf2(a, x, y, it, M.msize(a) + 11))

    def chacha(self, mx):
        s = self.s
        self.headers |= {'cipher/chacha.h', 'cipher/apie.h'}
        T = 'milo::primitive::cipher::chacha_20<%s>' % self.opts('cipher_chacha_impl_sw_ietf', None)[0]
        T = self.kind('cipher', T)
        N = 'milo::primitive::cipher::'
        key, m = self.input(32), self.input(s.size(mx, 64))
        if s.below(3) == 2:
            ivd = (2**32 - 1 - s.below(12)).to_bytes(4, 'little') + mk(s.below(40), 12)
            iv = self.input(16, ivd)
        else:
            iv = self.input(16)
        ct = M.chacha20(key.data, iv.data, m.data)
        kind_site = next(i for i in range(len(self.sites) - 1, -1, -1) if 'wrong kind' in self.sites[i])
        d = s.pick(['encrypt', 'decrypt'])
        f = s.below(6)
        if f == 5:              # an AEAD class used directly looks the same
            self.live.discard(kind_site)
        self.desc.append('chacha20 %s len=%d form=%d' % (d, m.n, f))
        if f == 0:
            a = '%s, %s, %s' % (key.ptr, iv.ptr, m.ptr)
            p, after = self.out_ptr(ct)
            self.num('%s%s<%s>(%s, %s)' % (N, d, T, a, p), m.n)
            after()
        elif f == 1:
            a = '%s, %s, %s' % (key.cont(), iv.cont(), m.cont())
            v, eff, after = self.out_cont(ct, len(ct))
            self.num('%s%s<%s>(%s, %s)' % (N, d, T, a, v), m.n)
            after()
        elif f == 2:
            a = '%s, %s, %s' % (key.cont(), iv.cont(), m.cont())
            t = '' if s.below(3) == 0 else ', ' + self.dyn_type()
            self.put('%s%s<%s%s>(%s)' % (N, d, T, t, a), ct)
        else:
            o = self.name('o')
            A = N + 'apie<%s>' % T if f != 5 else T
            if f == 5 or s.below(2):
                self.line('%s %s;' % (A, o))
                if s.below(3) == 2:
                    x, y, z = self.input(32), self.input(16), self.input(s.below(150))
                    self.label('used before')
                    self.line('%s.initialize(%s, %s);' % (o, x.ptr, y.ptr))
                    o = self.stream(o, s.pick(['encrypt', 'decrypt']), z, M.chacha20(x.data, y.data, z.data), f == 5)
                self.line('%s.initialize(%s);' % (o, key.ptr + ', ' + iv.ptr if f == 5 or s.below(2) else key.cont() + ', ' + iv.cont()))
            else:
                self.line('%s %s(%s);' % (A, o, key.ptr + ', ' + iv.ptr if s.below(2) else key.cont() + ', ' + iv.cont()))
            self.stream(o, d, m, ct, f == 5)

    def stream(self, o, d, m, ct, plain=False):
        s = self.s
        off = 0
        for k in self.parts(m.n):
            part = ct[off:off + k]
            o = self.alter(o)
            g = s.below(1 if plain else 3)
            if g == 0:
                p, after = self.out_ptr(part)
                self.num('%s.%s(%s, %d, %s)' % (o, d, m.at(off), k, p), k)
                after()
            elif g == 1:
                c = m.cont(off, k)
                v, eff, after = self.out_cont(part, k)
                self.num('%s.%s(%s, %s)' % (o, d, c, v), k)
                after()
            else:
                self.put('%s.template %s<%s>(%s)' % (o, d, self.dyn_type(), m.cont(off, k)), part)
            if not plain and s.below(4) == 3:
                self.num('%s.%s_size(%s)' % (o, d, m.ptr if s.below(2) else m.cont()), m.n)
            off += k
        return o

    def aead(self, mx):
        s = self.s
        self.headers |= {'aead/chacha.h', 'aead/apie.h'}
        T = 'milo::primitive::aead::chacha_20_poly_1305<>'
        if s.chance(2, 8):
            self.label('option-impl')
            T = 'milo::primitive::detail::aead_chacha_20_poly_1305<milo::primitive::cipher::chacha_20<%s>, milo::primitive::mac::poly_1305<%s>>' % (
                self.opts('cipher_chacha_impl_sw_ietf', None)[0], self.opts('mac_poly_1305_impl_sw', None)[0])
        T = self.kind('aead', T)
        N = 'milo::primitive::aead::'
        key, iv, ad, m = self.input(32), self.input(12), self.input(s.size(80, 16)), self.input(s.size(mx, 64))
        f = s.below(9)
        self.desc.append('aead aad=%d len=%d form=%d' % (ad.n, m.n, f))
        ct, tag = M.aead(key.data, iv.data, ad.data, m.data)
        heads = lambda: '%s, %s, %s' % (key.cont(), iv.cont(), ad.cont())
        if f == 0:
            p, after = self.out_ptr(ct)
            q, after2 = self.out_ptr(tag)
            t = self.var('auto', '%sencrypt<%s>(%s, %s, %s, %s, %s, %s)' % (N, T, key.ptr, iv.ptr, ad.ptr, m.ptr, p, q))
            self.num(t + '.item_0', m.n)
            self.num(t + '.item_1', 16)
            after(), after2()
        elif f == 1:
            a = heads() + ', ' + m.cont()
            v, eff, after = self.out_cont(ct, len(ct))
            w, weff, after2 = self.out_cont(tag)
            t = self.var('auto', '%sencrypt<%s>(%s, %s, %s)' % (N, T, a, v, w))
            self.num(t + '.item_0', m.n)
            self.num(t + '.item_1', len(weff))
            after(), after2()
        elif f == 2:
            a = heads() + ', ' + m.cont()
            k = s.below(3)
            types = ', ' + self.dyn_type() if k == 1 else ''
            tl = 16
            if k == 2:
                tl = 1 + s.below(16)
                types = ', %s, %s' % (self.dyn_type(), self.fix_type(tl, 16))
            t = self.var('const auto', '%sencrypt<%s%s>(%s)' % (N, T, types, a))
            self.put(t + '.item_0', ct)
            self.put(t + '.item_1', tag[:tl])
        elif f in (3, 4, 5):
            # decryption: m is the ciphertext
            pt = M.chacha20(key.data, b'\1\0\0\0' + iv.data, m.data)
            good = M.aead_tag(key.data, iv.data, ad.data, m.data)
            bad = s.below(3) == 2
            td = good
            if bad:
                k = s.below(3)
                td = good[:s.below(16)] if k == 0 else good + b'\0' if k == 1 else bytes([good[0] ^ 1]) + good[1:]
            tg = self.input(len(td), td)
            err = s.below(2) == 0 or (bad and self.ce)
            e = None
            if err:
                e = self.name('e')
                self.line('milo::error %s = %s;' % (e, s.pick(['milo::error::none', 'milo::error::size', 'milo::error::codec_base_16_decode', 'milo::error::aead_verify'])))
            self.desc[-1] += ' decrypt%s%s' % (' bad-tag' if bad else '', ' err' if err else '')
            et = ', ' + e if err else ''
            if f == 3:
                p, after = self.out_ptr(pt)
                call = '%sdecrypt<%s>(%s, %s, %s, %s, %s, %s%s)' % (N, T, key.ptr, iv.ptr, ad.ptr, m.ptr, tg.ptr, p, et)
                res = [('num', len(pt)), after]
            elif f == 4:
                a = heads() + ', %s, %s' % (m.cont(), tg.cont())
                v, eff, after = self.out_cont(pt, len(pt))
                call = '%sdecrypt<%s>(%s, %s%s)' % (N, T, a, v, et)
                res = [('num', len(pt)), after]
            else:
                a = heads() + ', %s, %s' % (m.cont(), tg.cont())
                t = '' if s.below(3) == 0 else ', ' + self.dyn_type()
                call = '%sdecrypt<%s%s>(%s%s)' % (N, T, t, a, et)
                res = [('put', pt), None]
            self.failing(call, res, bad, e, 'milo::error::aead_verify')
        else:
            o = self.name('o')
            A = N + 'apie<%s>' % T if f != 8 else T
            if f == 8 or s.below(2):
                self.line('%s %s;' % (A, o))
                if s.below(3) == 2:
                    x, y, z, w = self.input(32), self.input(12), self.input(s.below(40)), self.input(s.below(150))
                    self.label('used before')
                    self.line('%s.initialize(%s, %s);' % (o, x.ptr, y.ptr))
                    k = s.below(4)
                    if k:
                        self.line('%s.aad(%s);' % (o, z.ptr))
                    if k > 1:
                        o = self.stream(o, s.pick(['encrypt', 'decrypt']), w, M.chacha20(x.data, b'\1\0\0\0' + y.data, w.data), f == 8)
                    if k > 2 and f == 8:
                        self.line('%s.finalize();' % o)
                self.line('%s.initialize(%s);' % (o, key.ptr + ', ' + iv.ptr if f == 8 or s.below(2) else key.cont() + ', ' + iv.cont()))
            else:
                self.line('%s %s(%s);' % (A, o, key.ptr + ', ' + iv.ptr if s.below(2) else key.cont() + ', ' + iv.cont()))
            if f == 8:
                o = self.plain(o, 'aad', ad)
            elif ad.n or s.below(2):
                o = self.feed(o, 'aad', ad)
            d = s.pick(['encrypt', 'decrypt'])
            res = ct
            if d == 'decrypt':
                tag = M.aead_tag(key.data, iv.data, ad.data, m.data)
            if m.n or s.below(2):
                o = self.stream(o, d, m, res, f == 8)
            if f == 8:
                self.line('%s.finalize();' % o)
                o = self.alter(o)
                self.take(o, tag, True)
            elif s.below(2):
                o = self.take(self.alter(o), tag)
                if s.below(4) == 3:
                    self.take(self.alter(o, 1), tag)
            else:
                o = self.alter(o)
                bad = s.below(2)
                td = tag[:-1] + bytes([tag[-1] ^ 0x80]) if bad else tag
                tg = self.input(len(td), td)
                err = s.below(2) == 0 or (bad and self.ce)
                e = None
                if err:
                    e = self.name('e')
                    self.line('milo::error %s = milo::error::%s;' % (e, s.pick(['none', 'size'])))
                a = tg.ptr if s.below(2) else tg.cont()
                self.failing('%s.verify(%s%s)' % (o, a, ', ' + e if err else ''), None, bad, e, 'milo::error::aead_verify')

    # a call that fails or not, with an error argument `e` or by exception
    def failing(self, call, res, bad, e, code):
        def run():
            if res is None:
                self.line(call + ';')
            elif bad:
                self.line('(void)%s;' % call)
            elif res[0][0] == 'num':
                self.num(call, res[0][1])
                res[1]()
            else:
                self.put(call, res[0][1])
        if e:
            run()
            self.num('%s == %s' % (e, code if bad else 'milo::error::none'), 1)
            self.num('bool(%s)' % e, int(bool(bad)))
        elif bad:
            self.line('try { (void)(%s); r.num(0); } catch (const milo::error& x) { r.num(x ? 2 : 3); }' % call)
            self.exp += (2).to_bytes(8, 'little')
        else:
            run()

    def codec(self, mx):
        s = self.s
        b = s.pick(['16', '64'])
        T = self.kind('codec', 'milo::primitive::codec::base_%s<>' % b)
        self.headers |= {'codec/base.h', 'codec/apie.h'}
        N = s.pick(['milo::primitive::codec::', 'milo::primitive::codec::apie<%s>::' % T])
        free = not N.endswith('>::')
        fn = lambda f, *ts: N + f + ('<%s>' % ', '.join(([T] if free else []) + list(ts)) if free or ts else '')
        AP = 'milo::primitive::codec::apie<%s>::' % T
        n = s.size(min(mx, 90), 12)
        f = s.below(6)
        if f < 3:
            m = self.input(n)
            t = M.base16(m.data) if b == '16' else M.base64e(m.data)
            self.desc.append('base-%s encode len=%d form=%d' % (b, n, f))
            if f == 0:
                p, after = self.out_ptr(t)
                self.num('%s(%s, %s)' % (fn('encode'), m.ptr, p), len(t))
                after()
            elif f == 1:
                a = m.cont()
                v, eff, after = self.out_cont(t, len(t))
                self.num('%s(%s, %s)' % (fn('encode'), a, v), len(t))
                after()
            elif free and s.below(3) == 0:
                self.put('%s(%s)' % (fn('encode'), m.cont()), t)
            else:
                self.put('%s(%s)' % (fn('encode', self.dyn_type()), m.cont()), t)
            if s.below(3) == 2:
                self.num('%sencode_size(%s)' % (AP, m.ptr if s.below(2) else m.cont()), len(t))
            return
        data = mk(s.below(40), n)
        t = bytearray(M.base16(data) if b == '16' else M.base64e(data))
        if b == '16':
            for i in range(len(t)):
                if chr(t[i]).isalpha() and s.below(2):
                    t[i] ^= 0x20
            if t and s.below(3) == 2:
                del t[0]
        bad = bool(t) and s.below(3) == 2
        if bad:
            k = s.below(len(t))
            t[k] = s.pick(list(b'!-_ \n\x00\x80\xff~'))
            if b == '64' and s.below(3) == 2:
                t = bytearray(M.base64e(data)[:-1 - s.below(3)] or b'A')
        t = bytes(t)
        out = M.unbase16(t) if b == '16' else M.unbase64(t)
        assert (out is None) == bad, (t, out, bad)
        ti = self.input(len(t), t)
        err = s.below(2) == 0 or (bad and self.ce)
        if bad:
            out = data
        if f == 5:
            err = False            # by value only throws
            if bad and self.ce:
                f = 3
                err = True
        e = None
        self.desc.append('base-%s decode %r form=%d%s%s' % (b, t, f, ' bad' if bad else '', ' err' if err else ''))
        if err:
            e = self.name('e')
            self.line('milo::error %s = milo::error::%s;' % (e, s.pick(['none', 'size', 'codec_base_16_decode', 'aead_verify'])))
        et = ', ' + e if err else ''
        room = data + bytes(8)
        if f == 3:
            p, after = self.out_ptr(out if not bad else room)
            self.failing('%s(%s, %s%s)' % (fn('decode'), ti.ptr, p, et), [('num', len(out)), after], bad, e, 'milo::error::codec_base_%s_decode' % b)
        elif f == 4:
            a = ti.cont()
            v, eff, after = self.out_cont(out if not bad else room, len(out))
            self.failing('%s(%s, %s%s)' % (fn('decode'), a, v, et), [('num', len(out)), after], bad, e, 'milo::error::codec_base_%s_decode' % b)
        else:
            ts = [] if free and s.below(3) == 0 else [self.dyn_type()]
            self.failing('%s(%s)' % (fn('decode', *ts), ti.cont()), [('put', out), None], bad, e, 'milo::error::codec_base_%s_decode' % b)
        if not bad and s.below(3) == 2:
            self.num('%sdecode_size(%s)' % (AP, ti.ptr if s.below(2) else ti.cont()), len(out))

    OPS = ['hash', 'hmac', 'poly', 'hkdf', 'pbkdf2', 'chacha', 'aead', 'aead', 'codec', 'codec', 'chacha', 'hash']

    def case(self, mx, op=None):
        op = op or self.s.pick(self.OPS)
        self.label(op)
        getattr(self, op)(mx)
        return self

    def text(self):
        return '\n'.join('        ' + l for l in self.lines)
