"""C24: generated programs of several translation units, including public headers in drawn sets,
orders and repetitions, using the algorithms during static initialization and afterwards."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from lib import build as B, model as M, pypbt

RULE = 'a program of 1..4 translation units, each with a drawn list of public headers (order, repetitions), uses between and after them, many during static initialization, also from one unit into another, linked in a drawn order, with or without assembly; non-trivial: distinct program text'
ALONE = 'every public header as the only thing in a translation unit, once and twice, with and without assembly, at -std=c++20, and every ordered pair of them in one unit; non-trivial: distinct text'

HEAD = '''typedef unsigned char u8_;
struct R24 { u8_ b[700]; unsigned long n; };
struct V24 { using value_type = u8_; const u8_* p; unsigned long n; const u8_* data() const noexcept { return p; } unsigned long size() const noexcept { return n; } };
static void fill24(u8_* p, unsigned long n, unsigned long long x) { for (unsigned long i = 0; i < n; i++) { x = x * 6364136223846793005u + 1442695040888963407u; p[i] = u8_(x >> 56); } }
static int same24(const R24& r, const u8_* e, unsigned long n) { if (r.n != n) return 0; for (unsigned long i = 0; i < n; i++) if (r.b[i] != e[i]) return 0; return 1; }
'''
HASHES = [('sha_1_160', 20), ('sha_2_224', 28), ('sha_2_256', 32), ('sha_2_384', 48), ('sha_2_512', 64), ('sha_2_512_224', 28), ('sha_2_512_256', 32)]
P = 'milo::primitive::'


def public():
    r = []
    for d, ds, fs in os.walk(B.REPO + '/src/milo'):
        rel = os.path.relpath(d, B.REPO + '/src')
        if 'internal' in rel.split('/') or 'detail' in rel.split('/'):
            continue
        r += [rel + '/' + f for f in fs if f.endswith('.h')]
    return sorted(r)


def data(seed, n):
    out, x = bytearray(), seed
    for _ in range(n):
        x = (x * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        out.append(x >> 56)
    return bytes(out)


class Use:
    """a function computing something, the headers it needs, and what it must return"""

    def __init__(self, s):
        self.needs, self.pre = [], ''
        getattr(self, s.pick(['hash', 'hash', 'hash', 'hmac', 'poly', 'hkdf', 'pbkdf2', 'chacha', 'chacha', 'aead', 'codec', 'literal']))(s)

    def inp(self, s, name, n):
        seed = s.below(1 << 30)
        self.body = getattr(self, 'body', '') + ' u8_ %s[%d]; fill24(%s, %d, %d); V24 v_%s{%s, %d};' % (name, max(n, 1), name, n, seed, name, name, n)
        return data(seed, n)

    def p(self, *h):
        self.needs += ['milo/primitive/%s.h' % x for x in h]

    def hash_type(self, s):
        n, d = s.pick(HASHES)
        self.p('hash/sha')
        if s.below(4) == 3:
            k = 1 + s.below(d)
            self.needs.append('milo/option.h')
            return P + 'hash::%s<milo::option::digest_size<%d>>' % (n, k), '%s/_:%d' % (n, k), k, n, d
        return P + 'hash::%s<>' % n, n, d, n, d

    def absorb(self, s, T, space, init, m, full):
        """object or one-call forms over message m in array m"""
        f = s.below(4)
        n = len(m)
        cut = s.below(n + 1)
        if f == 0:
            self.body += ' %s a; a.initialize(%s); a.update(m, %d); a.update(m + %d, %d); a.finalize(); r.n = a.digest(r.b);' % (T, init[0], cut, cut, n - cut)
        elif f == 1:
            self.p(space + '/apie')
            self.body += ' %s%s::apie<%s> a%s; a.update(m, %d); a.update(V24{m + %d, %d}); r.n = a.digest(r.b, 700);' % (P, space, T, '(%s)' % init[0] if init[0] else '', cut, cut, n - cut)
        elif f == 2:
            self.p(space + '/apie')
            self.body += ' r.n = %s%s::digest<%s>(%sm, %d, r.b);' % (P, space, T, init[0] + ', ' if init[0] else '', n)
        else:
            self.p(space + '/apie')
            self.body += ' auto d = %s%s::digest<%s>(%sv_m); r.n = d.size(); for (unsigned long i = 0; i < r.n; i++) r.b[i] = d.data()[i];' % (P, space, T, init[1] + ', ' if init[1] else '')
        self.want = full

    def hash(self, s):
        T, alg, d, base, full = self.hash_type(s)
        m = self.inp(s, 'm', s.size(900, 64))
        self.absorb(s, T, 'hash', ('', ''), m, M.hash(base, m)[:d])

    def hmac(self, s):
        T, alg, d, base, full = self.hash_type(s)
        self.p('mac/hmac')
        k = self.inp(s, 'k', s.size(200, 64))
        m = self.inp(s, 'm', s.size(600, 64))
        H = P + 'hash::%s<>' % base
        self.absorb(s, P + 'mac::hmac<%s>' % H, 'mac', ('k, %d' % len(k), 'v_k'), m, M.hmac(base, k, m))

    def poly(self, s):
        self.p('mac/poly')
        k = self.inp(s, 'k', 32)
        m = self.inp(s, 'm', s.size(300, 16))
        self.absorb(s, P + 'mac::poly_1305<>', 'mac', ('k, 32', 'v_k'), m, M.poly1305(k, m))

    def kdf(self, s, T, args, want):
        n = len(want)
        if s.below(2):
            self.body += ' %s a; a.initialize(%s); r.n = a.derive(r.b, %d); r.n += a.derive(r.b + %d, %d);' % (T, args, n // 2, n // 2, n - n // 2)
        else:
            self.p('kdf/apie')
            self.body += ' r.n = %skdf::derive<%s>(%s, r.b, %d);' % (P, T, args, n)
        self.want = want

    def hkdf(self, s):
        base, d = s.pick(HASHES)
        self.p('hash/sha', 'mac/hmac', 'kdf/hkdf')
        i, a, f = self.inp(s, 'i', s.size(150, 64)), self.inp(s, 'sa', s.size(100, 64)), self.inp(s, 'f', s.size(100, 64))
        n = s.below(300)
        self.kdf(s, P + 'kdf::hkdf<%smac::hmac<%shash::%s<>>>' % (P, P, base), 'i, %d, sa, %d, f, %d' % (len(i), len(a), len(f)), M.hkdf(base, i, a, f, n))

    def pbkdf2(self, s):
        base, d = s.pick(HASHES)
        self.p('hash/sha', 'mac/hmac', 'kdf/pbkdf')
        i, a = self.inp(s, 'i', s.size(150, 64)), self.inp(s, 'sa', s.size(100, 64))
        n, it = s.below(150), 1 + s.below(3)
        self.kdf(s, P + 'kdf::pbkdf_2<%smac::hmac<%shash::%s<>>>' % (P, P, base), 'i, %d, sa, %d, %d' % (len(i), len(a), it), M.pbkdf2(base, i, a, it, n))

    def chacha(self, s):
        self.p('cipher/chacha')
        k, v, m = self.inp(s, 'k', 32), self.inp(s, 'v', 16), self.inp(s, 'm', s.size(700, 64))
        T, n, d = P + 'cipher::chacha_20<>', len(m), s.pick(['encrypt', 'decrypt'])
        if s.below(2):
            c = s.below(n + 1)
            self.body += ' %s a; a.initialize(k, 32, v, 16); r.n = a.%s(m, %d, r.b); r.n += a.%s(m + %d, %d, r.b + %d);' % (T, d, c, d, c, n - c, c)
        else:
            self.p('cipher/apie')
            self.body += ' r.n = %scipher::%s<%s>(k, 32, v, 16, m, %d, r.b);' % (P, d, T, n)
        self.want = M.chacha20(k, v, m)

    def aead(self, s):
        self.p('aead/chacha')
        k, v, a, m = self.inp(s, 'k', 32), self.inp(s, 'v', 12), self.inp(s, 'a', s.size(100, 16)), self.inp(s, 'm', s.size(500, 64))
        T, n = P + 'aead::chacha_20_poly_1305<>', len(m)
        ct, tag = M.aead(k, v, a, m)
        if s.below(2):
            self.body += ' %s o; o.initialize(k, 32, v, 12); o.aad(a, %d); o.encrypt(m, %d, r.b); o.finalize(); r.n = %d + o.digest(r.b + %d);' % (T, len(a), n, n, n)
        else:
            self.p('aead/apie')
            self.body += ' %saead::encrypt<%s>(k, 32, v, 12, a, %d, m, %d, r.b, r.b + %d); r.n = %d;' % (P, T, len(a), n, n, n + 16)
        self.want = ct + tag

    def codec(self, s):
        self.p('codec/base')
        m = self.inp(s, 'm', s.size(250, 16))
        b = s.below(2)
        T = P + 'codec::base_%d<>' % (16, 64)[b]
        t = (M.base16 if b == 0 else M.base64e)(m)
        if s.below(2):
            if s.below(2):
                self.p('codec/apie')
                self.body += ' r.n = %scodec::encode<%s>(m, %d, r.b);' % (P, T, len(m))
            else:
                self.body += ' r.n = %s::encode(m, %d, r.b);' % (T, len(m))
            self.want = t
        else:
            self.p('codec/apie')
            self.needs.append('milo/error.h')
            self.body += ' static const char t[] = "%s"; milo::error e; r.n = %scodec::decode<%s>(t, %d, r.b, e); if (e) r.n = 699;' % (t.decode(), P, T, len(t))
            self.want = m

    def literal(self, s):
        self.needs.append('milo/literal.h')
        m = data(s.below(1000), s.below(60))
        t, suffix = s.pick([(m.hex(), '_base_16'), (M.base64e(m).decode(), '_base_64'), (''.join('\\%03o' % c for c in m), '_c')])
        # usable whatever else is declared
        self.body = ' using namespace milo::literal; const auto d = "%s"%s; r.n = d.size(); for (unsigned long i = 0; i < r.n; i++) r.b[i] = u8_(d.data()[i]);' % (t, suffix)
        self.want = m


FORMS = 7


def during(form, name, f):
    """a definition whose dynamic initialization calls f"""
    return ['static const R24 %s = %s();' % (name, f),
            'namespace { struct I_%s { R24 v; I_%s() { v = %s(); } } i_%s; R24& %s = i_%s.v; }' % (name, name, f, name, name, name),
            'template<int> struct T_%s { static inline const R24 v = %s(); }; template struct T_%s<0>; static const R24& %s = T_%s<0>::v;' % (name, f, name, name, name),
            'inline const R24 %s = %s();' % (name, f),
            'static const R24& g_%s() { static const R24 v = %s(); return v; } static const R24 %s = g_%s();' % (name, f, name, name),
            'static const R24 %s = [] { R24 a = %s(); R24 b = %s(); return same24(a, b.b, b.n) ? a : R24{{}, 698}; }();' % (name, f, f),
            'struct O_%s { R24 v = %s(); }; static O_%s o_%s[2]; static const R24& %s = o_%s[1].v;' % (name, f, name, name, name, name)][form]


class Program:
    def __init__(self, s):
        hs = public()
        n = 1 + s.below(4)
        self.desc, self.labels = [], set()
        uses = []
        for k in range(n):
            for j in range(1 + s.below(4) if k == 0 or s.below(5) else 0):
                u = Use(s)
                u.name = 'f_%d_%d' % (k, j)
                u.unit = k
                uses.append(u)
        self.units = []
        serial = 0
        for k in range(n):
            mine = [u for u in uses if u.unit == k]
            incs = []
            for u in mine:
                incs += u.needs
            if mine or s.below(2):
                incs += [s.pick(hs) for _ in range(s.below(7))]
            # a drawn order, with some repeated
            order = []
            pool = list(incs)
            while pool:
                order.append(pool.pop(s.below(len(pool))))
            if s.below(2):
                order = [h for i, h in enumerate(order) if h not in order[:i]]
            else:
                self.labels.add('repeated')
            body = [HEAD]
            if s.below(3) == 2:
                body = ['#include <vector>\n#include <string>\n'] + body
            seen, todo, checks = set(), list(mine), []

            def emit(u, f, ext):
                nonlocal serial
                form = s.below(FORMS + 2)
                if form < FORMS:
                    serial += 1
                    v = 'v_%d_%d' % (k, serial)
                    body.append(during(form, v, f))
                    checks.append((v, u))
                    self.labels.add('static init')
                    if ext:
                        self.labels.add('static init across units')
                else:
                    checks.append((f + '()', u))
            for h in order + [None]:
                if h:
                    body.append('#include <%s>' % h)
                    seen.add(h)
                for u in list(todo):
                    if h is None or (set(u.needs) <= seen and s.below(3)):
                        todo.remove(u)
                        body.append('R24 %s() { R24 r{};%s return r; }' % (u.name, u.body))
                        emit(u, u.name, False)
            for _ in range(s.below(3)):
                u = s.pick(uses)
                if u.unit != k:
                    body.append('R24 %s();' % u.name)
                    emit(u, u.name, True)
            body.append('int check_%d() {' % k)
            for v, u in checks:
                body.append(' { static const u8_ e[] = {%s}; if (!same24(%s, e, %d)) return %d; }' % (','.join(map(str, u.want)) or '0', v, len(u.want), 1 + uses.index(u)))
            body.append(' return 0;\n}')
            self.units.append('\n'.join(body) + '\n')
            self.desc.append('[%s | %s]' % (' '.join(h[5:] for h in order), ' '.join(v for v, _ in checks)))
        self.units.append('#include <cstdio>\n' + ''.join('int check_%d();\n' % k for k in range(n)) + 'int main() { int r;\n' +
                          ''.join('if ((r = check_%d())) { printf("unit %d: wrong result of use %%d\\n", r - 1); return 1; }\n' % (k, k) for k in range(n)) + 'return 0; }\n')
        self.link = []
        pool = list(range(n + 1))
        while pool:
            self.link.append(pool.pop(s.below(len(pool))))
        self.asm = s.below(3) < 2
        self.opt = s.pick(['-O0', '-O0', '-O1', '-O2'])
        self.lib_first = s.below(2)
        self.labels.add('%d units' % n)
        self.labels.add('asm' if self.asm else 'no asm')
        self.text = '\n'.join('// ---- unit %d\n%s' % (i, t) for i, t in enumerate(self.units)) + '// link %s %s %s\n' % (self.link, self.opt, 'asm' if self.asm else 'no asm')


def execute(tmp, name, p):
    """'' or what fails"""
    flags = ['-std=c++20', '-w', p.opt, '-I' + B.REPO + '/src', *(B.ASM_DEFS if p.asm else B.NOASM_DEFS)]
    objs, made = [], []
    try:
        for i in p.link:
            src, obj = '%s/%s_%d.cpp' % (tmp, name, i), '%s/%s_%d.o' % (tmp, name, i)
            open(src, 'w').write(p.units[i])
            made += [src, obj]
            cmd = [B.CXX, *flags, '-c', src, '-o', obj]
            rc, out = B.sh(cmd, timeout=300)
            if rc and 'error:' not in out:
                rc, out = B.sh(cmd, timeout=300)
                if rc and 'error:' not in out:
                    raise RuntimeError('the compiler fails: ' + out[-500:])
            if rc:
                return 'unit %d does not compile: %s' % (i, next(l for l in out.splitlines() if 'error:' in l))
            objs.append(obj)
        exe = '%s/%s' % (tmp, name)
        made.append(exe)
        asm = B.asm_objs() if p.asm else []
        rc, out = B.sh([B.CXX, *(asm + objs if p.lib_first else objs + asm), '-Wl,-z,noexecstack', '-o', exe], timeout=120)
        if rc:
            e = [l for l in out.splitlines() if 'multiple definition' in l or 'undefined reference' in l]
            if not e:
                raise RuntimeError('the linker fails: ' + out[-500:])
            return 'does not link: ' + e[0]
        try:
            q = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        except subprocess.TimeoutExpired:
            return 'does not end'
        if q.returncode:
            return 'ended with status %d: %s' % (q.returncode, q.stdout.decode('utf-8', 'replace').strip())
        return ''
    finally:
        for f in made:
            if os.path.exists(f):
                os.unlink(f)


def alone(run):
    """all headers alone, and the later of each pair after the earlier"""
    hs = public()
    texts = []
    for h in hs:
        for a in (0, 1):
            texts.append((['#include <%s>\n' % h], a))
            texts.append((['#include <%s>\n#include <%s>\n' % (h, h)], a))
    s = pypbt.Src(pypbt.seeded('c24-orders', run.seed))
    orders = 24 if run.tier == 'quick' else 160
    for i in range(orders):        # whole permutations: every ordered pair appears in some
        pool, o = list(hs), []
        while pool:
            o.append(pool.pop(s.below(len(pool))))
        texts.append(([''.join('#include <%s>\n' % h for h in o)], i % 2))
        texts.append(([''.join('#include <%s>\n' % h for h in reversed(o))], i % 2))

    def one(k):
        (t,), a = texts[k]
        src = '%s/alone_%d.cpp' % (run.tmp, k)
        open(src, 'w').write(t)
        cmd = [B.CXX, '-std=c++20', '-w', '-fsyntax-only', '-I' + B.REPO + '/src', *(B.ASM_DEFS if a else B.NOASM_DEFS), src]
        rc, out = B.sh(cmd, timeout=300)
        if rc and 'error:' not in out:
            rc, out = B.sh(cmd, timeout=300)
        os.unlink(src)
        return t, a, rc, out
    with ThreadPoolExecutor(B.JOBS) as ex:
        for t, a, rc, out in ex.map(one, range(len(texts))):
            if rc:
                if 'error:' not in out:
                    raise RuntimeError('the compiler fails: ' + out[-500:])
                ex.shutdown(wait=False, cancel_futures=True)
                e = next(l for l in out.splitlines() if 'error:' in l)
                run.violation('a unit including only %s does not compile: %s' % (' '.join(t.split()), e),
                              'property C24\npart alone\nasm %d\n%s' % (a, t))
    run.count('alone', len(texts), len(texts), ALONE, [texts[0][0][0].strip(), texts[-1][0][0].replace('\n', ' ')[:200]])


def go(run, total):
    B.asm_objs()
    labels, seen, samples = {}, set(), []

    def one(i):
        s = pypbt.Src(pypbt.seeded('c24', run.seed, i))
        p = Program(s)
        return i, s.log, p, execute(run.tmp, 'p%d' % i, p)
    with ThreadPoolExecutor(B.JOBS) as ex:
        for i, log, p, r in ex.map(one, range(total)):
            seen.add(pypbt.fingerprint([p.text]))
            for l in p.labels:
                labels[l] = labels.get(l, 0) + 1
            if len(samples) < 6:
                samples.append(' '.join(p.desc))
            if r:
                ex.shutdown(wait=False, cancel_futures=True)

                def fails(c):
                    return bool(execute(run.tmp, 'shrink', Program(pypbt.Src(forced=c))))
                best = log
                if fails(log):
                    best = pypbt.shrink(log, fails, budget_s=90, budget_n=60)
                q = Program(pypbt.Src(forced=best))
                t = execute(run.tmp, 'last', q) or r
                run.violation('%s: %s' % (' '.join(q.desc), t), 'property C24\npart programs\nchoices %s\n# %s\n%s' % (json.dumps(best), t, q.text))
    run.count('programs', total, len(seen), RULE, samples, labels)


def run(r):
    alone(r)
    go(r, 260 if r.tier == 'quick' else 5000)


def replay(r, path):
    d = {}
    text = open(path).read()
    for l in text.splitlines():
        k, _, v = l.partition(' ')
        if k in ('part', 'choices', 'asm'):
            d.setdefault(k, v)
    if d['part'] == 'alone':
        body = ''.join(l + '\n' for l in text.splitlines() if l.startswith('#include'))
        rc, out = B.sh([B.CXX, '-std=c++20', '-w', '-fsyntax-only', '-I' + B.REPO + '/src', *(B.ASM_DEFS if d['asm'] == '1' else B.NOASM_DEFS), '-x', 'c++', '-'], input=body.encode())
        print(out[:2000])
        return 1 if rc else 0
    t = execute(r.tmp, 'replay', Program(pypbt.Src(forced=json.loads(d['choices']))))
    print(t or 'holds')
    return 1 if t else 0
