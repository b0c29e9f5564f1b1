"""C29: programs written by the test generator pass exactly when their vectors hold."""
import glob, json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from lib import build as B, model as M, pypbt

RULE = ('a configuration with drawn scheme, algorithm, implementations, groups, ids and vectors, generated, compiled and run (or compiled in its '
        'compile-time form) as it is, and again with a single vector made wrong or a single implementation wrong for a single vector; non-trivial: distinct configuration and form')
GENERATE = "import sys; sys.dont_write_bytecode = True; sys.path.insert(0, %r); import main; main.main()"

HASHES = [('sha_1_160', 1), ('sha_2_224', 1), ('sha_2_256', 1), ('sha_2_384', 0), ('sha_2_512', 0), ('sha_2_512_224', 0), ('sha_2_512_256', 0)]


def variants(name, ni):
    return [name, name + '_sw'] + ([name + '_hw_x86_64_ni'] if ni and 'sha_ni' in CPU else [])


CPU = set(open('/proc/cpuinfo').read().split())
CHACHA = ['cipher_chacha_20', 'cipher_chacha_20_sw'] + ['cipher_chacha_20_hw_x86_64_' + n for n, f in (('ssse_3', 'ssse3'), ('avx_2', 'avx2')) if f in CPU]

FAULTY = r'''
#include <milo/primitive/detail/alias.h>
namespace milo::primitive {
template<class B, size_t K> struct faulty_hash : B {
    size_t t = 0;
    constexpr void initialize() noexcept { B::initialize(); t = 0; }
    template<class T> constexpr void update(const T* p, size_t n) noexcept { B::update(p, n); t += n; }
    template<class T> constexpr size_t digest(T* p, size_t n = B::digest_size) noexcept { size_t r = B::digest(p, n); if (t == K && r) p[r - 1] = T(p[r - 1] ^ 1); return r; }
};
template<class B, size_t K> struct faulty_mac : B {
    size_t t = 0;
    template<class T> constexpr void initialize(const T* k, size_t n) noexcept { B::initialize(k, n); t = 0; }
    template<class T> constexpr void update(const T* p, size_t n) noexcept { B::update(p, n); t += n; }
    template<class T> constexpr size_t digest(T* p, size_t n = B::digest_size) noexcept { size_t r = B::digest(p, n); if (t == K && r) p[r - 1] = T(p[r - 1] ^ 1); return r; }
};
template<class B, size_t K> struct faulty_kdf : B {
    size_t t = 0;
    template<class T> constexpr size_t derive(T* p, size_t n) noexcept { size_t r = B::derive(p, n); t += r; if (t == K && r) p[r - 1] = T(p[r - 1] ^ 1); return r; }
};
template<class B, size_t K> struct faulty_cipher : B {
    size_t t = 0;
    template<class S, class T> constexpr size_t encrypt(const S* s, size_t n, T* p) noexcept { size_t r = B::encrypt(s, n, p); t += n; if (t == K && n) p[n - 1] = T(p[n - 1] ^ 1); return r; }
    template<class S, class T> constexpr size_t decrypt(const S* s, size_t n, T* p) noexcept { size_t r = B::decrypt(s, n, p); t += n; if (t == K && n) p[n - 1] = T(p[n - 1] ^ 1); return r; }
};
template<class B, size_t K, int W> struct faulty_aead : B {
    size_t t = 0;
    template<class S, class T> constexpr size_t encrypt(const S* s, size_t n, T* p) noexcept { size_t r = B::encrypt(s, n, p); t += n; if (W == 0 && t == K && n) p[n - 1] = T(p[n - 1] ^ 1); return r; }
    template<class S, class T> constexpr size_t decrypt(const S* s, size_t n, T* p) noexcept { size_t r = B::decrypt(s, n, p); t += n; if (W == 0 && t == K && n) p[n - 1] = T(p[n - 1] ^ 1); return r; }
    template<class T> constexpr size_t digest(T* p, size_t n = B::digest_size) noexcept { size_t r = B::digest(p, n); if (W == 1 && t == K && r) p[r - 1] = T(p[r - 1] ^ 1); return r; }
};
template<class B, size_t K> struct faulty_codec : B {
    template<class S, class T> static constexpr size_t encode(const S* s, size_t n, T* p) noexcept { size_t r = B::encode(s, n, p); if (n == K && r) p[r - 1] = T(p[r - 1] ^ 1); return r; }
    template<class S, class T> static constexpr size_t decode(const S* s, size_t n, T* p, error& e) noexcept { size_t r = B::decode(s, n, p, e); if (n == K && r) p[r - 1] = T(p[r - 1] ^ 1); return r; }
};
}
'''


def rnd(s, n):
    k = s.below(6)
    if k == 0:
        return bytes(n)
    if k == 1:
        return bytes([s.below(256)]) * n
    x, out = s.below(1 << 30), bytearray()
    for _ in range(n):
        x = (x * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        out.append(x >> 56)
    return bytes(out)


class Scheme:
    """fields in order, the expected ones, how to draw a right vector, and whether one holds"""

    def __init__(self, s, ce):
        self.ce = ce
        self.kind = s.pick(['hash', 'mac', 'hkdf', 'pbkdf2', 'cipher', 'aead', 'codec'])
        mx = 150 if ce else 900
        self.mx = mx
        self.fixed = ()
        self.text = ()
        k = self.kind
        if k in ('hash', 'mac', 'hkdf', 'pbkdf2'):
            self.alg, ni = s.pick(HASHES)
        if k == 'hash':
            self.scheme, self.impls, self.fault = 'test-primitive-hash', variants('hash_' + self.alg, ni), 'faulty_hash'
            self.fields, self.expected, self.size = ['message', 'digest'], ['digest'], 'message'
        elif k == 'mac':
            self.scheme, self.fault = 'test-primitive-mac', 'faulty_mac'
            if s.below(4) == 3:
                self.alg, self.impls, self.fixed = 'poly', ['mac_poly_1305', 'mac_poly_1305_sw'], ('key',)
            else:
                self.impls = variants('mac_hmac_' + self.alg, ni)
            self.fields, self.expected, self.size = ['key', 'message', 'digest'], ['digest'], 'message'
        elif k == 'hkdf':
            self.scheme, self.impls, self.fault = 'test-primitive-kdf-hkdf', variants('kdf_hkdf_hmac_' + self.alg, ni), 'faulty_kdf'
            self.fields, self.expected, self.size = ['ikm', 'salt', 'info', 'key'], ['key'], 'key'
        elif k == 'pbkdf2':
            self.scheme, self.impls, self.fault = 'test-primitive-kdf-pbkdf-2', variants('kdf_pbkdf_2_hmac_' + self.alg, ni), 'faulty_kdf'
            self.fields, self.expected, self.size = ['ikm', 'salt', 'iterations', 'key'], ['key'], 'key'
        elif k == 'cipher':
            self.d = s.pick(['encrypt', 'decrypt'])
            self.scheme, self.impls, self.fault = 'test-primitive-cipher-' + self.d, CHACHA, 'faulty_cipher'
            self.fields, self.expected = ['key', 'iv', 'plaintext', 'ciphertext'], ['ciphertext' if self.d == 'encrypt' else 'plaintext']
            self.fixed, self.size = ('key', 'iv'), 'plaintext'
        elif k == 'aead':
            self.d = s.pick(['encrypt', 'decrypt'])
            self.scheme, self.impls, self.fault = 'test-primitive-aead-' + self.d, ['aead_chacha_20_poly_1305', 'aead_chacha_20_sw_poly_1305_sw'], 'faulty_aead'
            self.fields, self.expected = ['key', 'iv', 'aad', 'plaintext', 'ciphertext', 'digest'], ['ciphertext', 'digest'] if self.d == 'encrypt' else ['plaintext', 'digest']
            self.fixed, self.size = ('key', 'iv'), 'plaintext'
        else:
            self.d, self.base = s.pick(['encode', 'decode']), s.pick([16, 64])
            self.scheme, self.impls, self.fault = 'test-primitive-codec-' + self.d, ['codec_base_%d' % self.base], 'faulty_codec'
            self.fields, self.expected, self.size = ['from', 'to'], ['to'], 'from'
            self.text = ('to',) if self.d == 'encode' else ('from',)

    def enc(self, m):
        return (M.base16 if self.base == 16 else M.base64e)(m).decode()

    def vector(self, s):
        k, mx = self.kind, self.mx
        v = {}
        if k == 'hash':
            v['message'] = rnd(s, s.size(mx, 64))
            v['digest'] = M.hash(self.alg, v['message'])
        elif k == 'mac':
            v['key'] = rnd(s, 32 if self.alg == 'poly' else s.size(min(mx, 300), 64))
            v['message'] = rnd(s, s.size(mx, 64))
            v['digest'] = self.mac(v)
        elif k == 'hkdf':
            v.update(ikm=rnd(s, s.size(mx // 3, 64)), salt=rnd(s, s.size(mx // 3, 64)), info=rnd(s, s.size(mx // 3, 64)))
            v['key'] = M.hkdf(self.alg, v['ikm'], v['salt'], v['info'], s.size(mx // 3, M.dsize(self.alg)))
        elif k == 'pbkdf2':
            v.update(ikm=rnd(s, s.size(mx // 3, 64)), salt=rnd(s, s.size(mx // 3, 64)), iterations=1 + s.below(3 if self.ce else 40))
            v['key'] = M.pbkdf2(self.alg, v['ikm'], v['salt'], v['iterations'], s.size(90 if self.ce else mx // 3, M.dsize(self.alg)))
        elif k == 'cipher':
            v.update(key=rnd(s, 32), iv=rnd(s, 16), plaintext=rnd(s, s.size(mx, 64)))
            v['ciphertext'] = M.chacha20(v['key'], v['iv'], v['plaintext'])
        elif k == 'aead':
            v.update(key=rnd(s, 32), iv=rnd(s, 12), aad=rnd(s, s.size(mx // 3, 16)), plaintext=rnd(s, s.size(mx, 64)))
            v['ciphertext'], v['digest'] = M.aead(v['key'], v['iv'], v['aad'], v['plaintext'])
        else:
            m = rnd(s, s.size(mx, 12))
            t = self.enc(m)
            if self.d == 'decode':
                if self.base == 16 and s.below(2):
                    t = ''.join(c.upper() if s.below(2) else c for c in t[:40]) + t[40:]
                v.update({'from': t, 'to': m})
            else:
                v.update({'from': m, 'to': t})
        return v

    def related(self, s, v):
        """another right vector, that shares some (or all) inputs with this one"""
        w, k = self.vector(s), self.kind
        if s.below(3) == 0 or k == 'codec':
            return dict(v)
        for f in self.fields:
            if f not in self.expected and not (k == 'cipher' and self.d == 'decrypt' and f == 'ciphertext') and s.below(3):
                w[f] = v[f]
        if k == 'hash':
            w['digest'] = M.hash(self.alg, w['message'])
        elif k == 'mac':
            w['digest'] = self.mac(w)
        elif k == 'hkdf':
            w['key'] = M.hkdf(self.alg, w['ikm'], w['salt'], w['info'], len(w['key']))
        elif k == 'pbkdf2':
            w['key'] = M.pbkdf2(self.alg, w['ikm'], w['salt'], w['iterations'], len(w['key']))
        elif k == 'cipher':
            w['ciphertext'] = M.chacha20(w['key'], w['iv'], w['plaintext'])
        elif k == 'aead':
            w['ciphertext'], w['digest'] = M.aead(w['key'], w['iv'], w['aad'], w['plaintext'])
        return w

    def mac(self, v):
        return M.poly1305(v['key'], v['message']) if self.alg == 'poly' else M.hmac(self.alg, v['key'], v['message'])

    def holds(self, v):
        k = self.kind
        if k == 'hash':
            return M.hash(self.alg, v['message']) == v['digest']
        if k == 'mac':
            return self.mac(v) == v['digest']
        if k == 'hkdf':
            return len(v['key']) <= 255 * M.dsize(self.alg) and M.hkdf(self.alg, v['ikm'], v['salt'], v['info'], len(v['key'])) == v['key']
        if k == 'pbkdf2':
            return M.pbkdf2(self.alg, v['ikm'], v['salt'], v['iterations'], len(v['key'])) == v['key']
        if k == 'cipher':
            return M.chacha20(v['key'], v['iv'], v['plaintext']) == v['ciphertext']
        if k == 'aead':
            return M.aead(v['key'], v['iv'], v['aad'], v['plaintext']) == (v['ciphertext'], v['digest'])
        if self.d == 'encode':
            return self.enc(v['from']) == v['to']
        # only ever made wrong by a character outside the alphabets, or another value
        return '*' not in v['from'] and self.enc(v['to']).lower() == v['from'].lower() and (self.base == 16 or self.enc(v['to']) == v['from'])

    def corrupt(self, s, v):
        """another vector, which does not hold, and what was done"""
        for _ in range(8):
            w = dict(v)
            f = s.pick(self.expected) if s.below(3) else s.pick(self.fields)
            x = w[f]
            if f == 'iterations':
                w[f] = x + 1 if s.below(2) or x == 1 else x - 1
                op = 'changed'
            elif self.kind == 'codec' and self.d == 'decode' and f == 'from':
                if s.below(2):
                    p = s.below(len(x) + 1)
                    w[f], op = x[:p] + '*' + x[p + 1:], 'invalid character'
                else:
                    w[f], op = self.enc(rnd(s, s.size(self.mx, 12))), 'another value'
            elif f in self.text:
                op = s.pick(['flip', 'flip', 'truncate', 'extend', 'empty', 'case'])
                al = '0123456789abcdefABCDEFxyz+/=-_ "\\?*%'
                p = s.pick([0, len(x) - 1, s.below(len(x) or 1)])
                if op == 'flip' and x:
                    w[f] = x[:p] + s.pick([c for c in al if c != x[p]]) + x[p + 1:]
                elif op == 'truncate':
                    w[f] = x[:-1 - s.below(4)]
                elif op == 'extend':
                    w[f] = x + s.pick(al)
                elif op == 'empty':
                    w[f] = ''
                elif op == 'case':
                    w[f] = x[:p] + x[p:p + 1].swapcase() + x[p + 1:]
            else:
                ops = ['flip', 'flip', 'flip'] + ([] if f in self.fixed else ['truncate', 'extend', 'empty', 'swap'])
                op = s.pick(ops)
                if op == 'flip' and x:
                    p = s.pick([0, len(x) - 1, s.below(len(x))])
                    w[f] = x[:p] + bytes([x[p] ^ (1 << s.below(8))]) + x[p + 1:]
                elif op == 'truncate':
                    w[f] = x[:-1 - s.below(3)]
                elif op == 'extend':
                    w[f] = x + rnd(s, 1 + s.below(2))
                elif op == 'empty':
                    w[f] = b''
                elif op == 'swap':
                    w[f] = x[::-1]
            if not self.holds(w):
                return w, '%s of %s' % (op, f)
        w = dict(v)
        f = self.expected[0]
        if f in self.text:
            w[f] += '*'
        else:
            w[f] = bytes([w[f][0] ^ 1]) + w[f][1:] if w[f] else b'\1'
            if self.holds(w):     # a shorter or longer derived key may still be right
                w[f] += b'\1'
        return w, 'change of ' + f


class Case:
    """a list of (config, compile-time form?, faulty header?, must it pass?, description)"""

    def __init__(self, s, pairs=True):
        ce = s.below(4) == 3
        self.ce = ce
        self.sc = sc = Scheme(s, ce)
        n = 1 + s.below(3 if ce else 6) if s.below(8) else 10 + s.below(8)
        if ce and n > 4:
            n = 4
        vs = [sc.vector(s) for _ in range(n)]
        ids = s.below(5)
        base = s.pick([1, 1, 255, 256, 65536, 1 << 31, 1 << 32, (1 << 62)])
        self.ids = [{0: i + 1, 1: n - i, 2: base + i, 3: base, 4: s.pick([256, 1 << 32, 7, 65536])}[ids] for i in range(n)]
        if s.below(12) == 11:
            self.ids[s.below(n)] = 0
        for i in range(1, n):
            if s.below(4) == 3:
                j = s.below(i)
                vs[i] = sc.related(s, vs[j])
                if s.below(2):
                    self.ids[i] = self.ids[j]
        cuts = sorted(s.below(n + 1) for _ in range(s.below(3)))
        self.cuts = [0] + cuts + [n]
        self.extra = s.below(4) == 3

        def pick(lo, hi):
            k = lo + s.below(hi - lo + 1)
            return [s.pick(sc.impls) for _ in range(k)]
        dual = pairs and sc.kind in ('hash', 'cipher', 'aead', 'codec') and s.below(6) == 5
        if sc.kind == 'aead' or sc.kind == 'codec':
            dual = True         # no comparison of implementations in these
        run, cpl = (pick(0, 1), pick(1, 2)) if ce else (pick(1, 3 if dual else 1), pick(0, 2))
        self.dual = len(run) > 1 and sc.kind not in ('aead', 'codec')
        self.list = [(self.config(vs, run, cpl), True, 'right')]
        for _ in range(1 + s.below(3)):
            i = s.pick([0, n - 1, s.below(n)])
            if i and s.below(3) == 2:
                # a wrong copy of an earlier vector, under its id or another, maybe in another group
                j = s.below(i)
                w, what = sc.corrupt(s, vs[j])
                ids, cuts = list(self.ids), list(self.cuts)
                if s.below(3):
                    ids[i] = ids[j]
                if s.below(3):
                    cuts = sorted(cuts + [i])
                self.list.append((self.config(vs[:i] + [w] + vs[i + 1:], run, cpl, ids, cuts), False, '%s, copy of vector %d at %d of %d' % (what, j + 1, i + 1, n)))
                continue
            if s.below(3) < 2:
                w, what = sc.corrupt(s, vs[i])
                self.list.append((self.config(vs[:i] + [w] + vs[i + 1:], run, cpl), False, '%s, vector %d of %d' % (what, i + 1, n)))
            else:
                target = cpl if ce else run
                j = s.below(len(target))
                size = len(vs[i][sc.size])
                if not size and sc.fault not in ('faulty_hash', 'faulty_mac') and not (sc.kind == 'aead'):
                    continue
                extra = ', %d' % (1 if not size or s.below(2) else 0) if sc.kind == 'aead' else ''
                if sc.kind == 'aead' and sc.d == 'decrypt' and not extra:
                    pass
                name = '%s<%s, %d%s>' % (sc.fault, target[j], size, extra)
                alias = 'using other_implementation = %s;' % name
                t = target[:j] + ['other_implementation'] + target[j + 1:]
                c = self.config(vs, run if ce else t, t if ce else cpl)
                c['alias'] = alias
                self.list.append((c, False, '%s at %d of %d implementations' % (name, j + 1, len(t))))
        self.desc = '%s %s%s: %d vectors, %s' % (sc.scheme[15:], getattr(sc, 'alg', ''), ' compile-time' if ce else '', n, '; '.join(d for _, _, d in self.list))

    def config(self, vs, run, cpl, ids=None, cuts=None):
        out = []
        ids, cuts = ids or self.ids, cuts or self.cuts
        for a, b in zip(cuts, cuts[1:]):
            g = {'data': []}
            if self.extra:
                g = {'comment': 'drawn', 'data': []}
            for v, i in zip(vs[a:b], ids[a:b]):
                e = {'id': i}
                for f in self.sc.fields:
                    e[f] = v[f].hex() if isinstance(v[f], bytes) else v[f]
                if self.extra:
                    e['note'] = 'n'
                g['data'].append(e)
            out.append(g)
        return {'scheme': self.sc.scheme, 'payload': {'impl': {'cpltime': cpl, 'runtime': run}, 'include': ['<milo/primitive/detail/alias.h>'], 'vectors': out}}


def generate(tmp, name, cfg):
    c, o = '%s/%s.json' % (tmp, name), '%s/%s.cpp' % (tmp, name)
    with open(c, 'w') as f:
        json.dump(cfg, f)
    p = subprocess.run(['python3', '-c', GENERATE % (B.REPO + '/tool/codegen'), '--config-path', c, '--output-path', o],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, cwd=tmp)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), c, o


def one(tmp, name, cfg, must, ce, opt):
    """'' or what is wrong"""
    cfg = json.loads(json.dumps(cfg))
    made = []
    alias = cfg.pop('alias', None)
    if alias:
        h = '%s/%s_alias.h' % (tmp, name)
        made.append(h)
        with open(h, 'w') as f:
            f.write('#pragma once\n' + FAULTY + 'namespace milo::primitive { %s }\n' % alias)
        cfg['payload']['include'].append('"%s"' % h)
    try:
        rc, out, c, o = generate(tmp, name, cfg)
        made += [c, o]
        zero = any(v['id'] == 0 for g in cfg['payload']['vectors'] for v in g['data'])
        if rc:
            # an id which could not be told from success may be refused
            return '' if zero else 'the generator fails: ' + out.strip()[-300:]
        flags = ['-std=c++20', '-w', '-march=native', '-fconstexpr-ops-limit=2147483648', '-I' + B.REPO + '/src', *B.ASM_DEFS]
        if ce:
            cmd = [B.CXX, *flags, '-DMILO_TEST_CONSTEXPR', '-fsyntax-only', o]
        else:
            obj = '%s/%s.o' % (tmp, name)
            made.append(obj)
            cmd = [B.CXX, *flags, opt, '-c', o, '-o', obj]
        rc, out = B.sh(cmd, timeout=300)
        if rc and 'error:' not in out:
            rc, out = B.sh(cmd, timeout=300)
            if rc and 'error:' not in out:
                raise RuntimeError('the compiler fails: ' + out[-500:])
        e = [l for l in out.splitlines() if 'error:' in l]
        if ce:
            if must and rc:
                return 'the compile-time form is refused: ' + e[0]
            if not must and not rc:
                return 'the compile-time form is accepted'
            if not must and not any('static assertion' in l for l in e):
                return 'the compile-time form does not compile for another reason: ' + e[0]
            return ''
        if rc:
            return 'does not compile: ' + e[0]
        exe = '%s/%s.exe' % (tmp, name)
        made.append(exe)
        rc, out = B.sh([B.CXX, obj, *B.asm_objs(), '-Wl,-z,noexecstack', '-o', exe], timeout=120)
        if rc:
            if 'undefined reference' in out or 'multiple definition' in out:
                return 'does not link'
            raise RuntimeError('the linker fails: ' + out[-500:])
        try:
            q = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        except subprocess.TimeoutExpired:
            return 'does not end'
        t = q.stdout.decode('utf-8', 'replace').strip()[:200]
        if q.returncode < 0:
            return 'is ended by signal %d' % -q.returncode
        if must and q.returncode:
            return 'fails: ' + t
        if not must and not q.returncode:
            return 'passes'
        return ''
    finally:
        for f in made:
            if os.path.exists(f):
                os.unlink(f)


def judge(tmp, name, case):
    opt = '-O2' if case.dual else '-O0'
    for k, (cfg, must, d) in enumerate(case.list):
        t = one(tmp, '%s_%d' % (name, k), cfg, must, case.ce, opt)
        if t:
            return cfg, '%s (%s) %s' % ('right vectors' if must else 'a wrong configuration', d, t)
    return None


def committed(run):
    cs = sorted(glob.glob(B.REPO + '/test/primitive/config/*.json'))
    n = 0
    for c in cs:
        name = os.path.basename(c)[:-5]
        o = '%s/re_%s.cpp' % (run.tmp, name)
        p = subprocess.run(['python3', '-c', GENERATE % (B.REPO + '/tool/codegen'), '--config-path', c, '--output-path', o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, cwd=run.tmp)
        t = '%s/test/primitive/%s.cpp' % (B.REPO, name)
        a = open(o, 'rb').read() if os.path.exists(o) else None
        b = open(t, 'rb').read() if os.path.exists(t) else None
        if p.returncode or a is None or a != b:
            run.violation('regenerating %s does not reproduce the committed test' % name, 'property C29\npart committed\nconfig %s\n' % name)
        os.unlink(o)
        n += 1
    have = set(os.path.basename(c)[:-5] for c in cs)
    for t in glob.glob(B.REPO + '/test/primitive/*.cpp'):
        if os.path.basename(t)[:-4] not in have:
            pass        # a test written by hand is no concern of this
    run.count('committed', n, n, 'every committed configuration, regenerated and compared with the committed test', [os.path.basename(c) for c in cs[:3]])


def go(run, total, deadline):
    B.asm_objs()
    labels, seen, samples, done, programs = {}, set(), [], 0, 0

    def job(i):
        if run.elapsed() > deadline:
            return None
        s = pypbt.Src(pypbt.seeded('c29', run.seed, i))
        c = Case(s)
        return s.log, c, judge(run.tmp, 'p%d' % i, c)
    with ThreadPoolExecutor(B.JOBS) as ex:
        for r in ex.map(job, range(total)):
            if r is None:
                continue
            log, c, bad = r
            done += 1
            for cfg, must, d in c.list:
                programs += 1
                seen.add(pypbt.fingerprint([json.dumps(cfg), c.ce]))
                l = ('right' if must else 'faulty implementation' if 'alias' in cfg else 'wrong vector') + (' at compile time' if c.ce else ' at run time')
                labels[l] = labels.get(l, 0) + 1
            labels[c.sc.scheme[15:]] = labels.get(c.sc.scheme[15:], 0) + 1
            if len(samples) < 6:
                samples.append(c.desc)
            if bad:
                ex.shutdown(wait=False, cancel_futures=True)

                def fails(x):
                    return judge(run.tmp, 'shrink', Case(pypbt.Src(forced=x))) is not None
                best = pypbt.shrink(log, fails, budget_s=90, budget_n=60) if fails(log) else log
                q = Case(pypbt.Src(forced=best))
                cfg, t = judge(run.tmp, 'last', q) or bad
                run.violation('%s: %s' % (q.sc.scheme, t), 'property C29\npart programs\nchoices %s\n# %s\n# %s\n' % (json.dumps(best), t, json.dumps(cfg)[:4000]))
    if done < total // 4:
        raise RuntimeError('too slow: %d of %d cases' % (done, total))
    run.count('programs', programs, len(seen), RULE, samples, labels)


def run(r):
    committed(r)
    if r.tier == 'quick':
        go(r, 200, 150)
    else:
        go(r, 12000, 800)


def replay(r, path):
    d = {}
    for l in open(path).read().splitlines():
        k, _, v = l.partition(' ')
        if k in ('part', 'choices', 'config'):
            d.setdefault(k, v)
    if d['part'] == 'committed':
        try:
            committed(r)
        except Exception as e:
            print(e)
            return 1
        print('holds')
        return 0
    bad = judge(r.tmp, 'replay', Case(pypbt.Src(forced=json.loads(d['choices']))))
    print(bad[1] if bad else 'holds')
    return 1 if bad else 0
