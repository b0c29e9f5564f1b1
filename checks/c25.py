"""C25: literals denote the written bytes; generated programs with drawn spellings."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from lib import build as B, model as M, pypbt

RULE = 'a string literal in a drawn spelling (plain, octal, hexadecimal and raw forms, concatenation, empty, embedded zero bytes, bytes above 0x7f) with a drawn suffix, at run time and, where allowed, in constant expressions; encoded literals also malformed; non-trivial: distinct program text'
OWN = ['_b', '_bv', '_c', '_cv', '_base_16', '_base_64']


def content(s):
    n = s.pick([s.below(4), s.below(20), s.below(20), s.below(70), s.below(600)])
    k = s.below(6)
    if k == 0:
        return bytes(n)
    if k == 1:
        return bytes(s.below(95) + 32 for _ in range(n))
    if k == 2:
        return bytes(s.pick([0, 255, 128, 127, 34, 92, 10, 13, 9, 48, 65]) for _ in range(n))
    return bytes(s.below(256) for _ in range(n))


def spell(s, data):
    """source text denoting exactly these bytes, without the suffix"""
    plain = all(32 <= c < 127 and c not in b'"\\?' for c in data)
    k = s.below(6)
    if k == 0 and all((32 <= c < 127 or c == 10) for c in data) and b')x"' not in data and b'\\\n' not in data:
        return 'R"x(%s)x"' % data.decode()
    cut = {0}
    if k in (1, 2):
        cut |= {s.below(len(data) + 1) for _ in range(1 + s.below(4))}
    cut = sorted(cut) + [len(data)]
    out = []
    for a, b in zip(cut, cut[1:]):
        t = ''
        hexed = False
        for c in data[a:b]:
            f = s.below(4)
            ch = chr(c)
            if 32 <= c < 127 and c not in b'"\\?' and (f or c in b'') and not (hexed and ch in '0123456789abcdefABCDEF'):
                t += ch
                hexed = False
            elif f == 1 and c in b'\n\t\r\a\b\f\v"\\':
                t += {10: '\\n', 9: '\\t', 13: '\\r', 7: '\\a', 8: '\\b', 12: '\\f', 11: '\\v', 34: '\\"', 92: '\\\\'}[c]
                hexed = False
            elif f == 2:
                t += '\\x%02x' % c
                hexed = True
            else:
                t += '\\%03o' % c
                hexed = False
        out.append('"%s"' % t)
    return s.pick([' ', '\n    ', '']).join(out) if k == 1 else ' '.join(out)


class Case:
    """literal expression, and the bytes it denotes (None: an error)"""

    def __init__(self, s):
        self.suffix = s.pick(OWN)
        data = content(s)
        self.value = data
        if self.suffix == '_base_16':
            t = bytearray(data.hex().encode())
            for i in range(len(t)):
                if s.below(2):
                    t[i:i + 1] = bytes(t[i:i + 1]).upper()
            if t and s.below(4) == 3:
                del t[0]
            self.text = bytes(t)
        elif self.suffix == '_base_64':
            self.text = M.base64e(data)
        else:
            self.text = data
        if 'base' in self.suffix:
            t = bytearray(self.text)
            if t and s.chance(1, 3):
                k = s.below(len(t))
                m = s.below(4)
                if m == 0:
                    t[k] = s.pick(list(b'!-_ \n\x00\x80\xff~:@[`{/.'))
                elif m == 1:
                    t.insert(k, s.pick(list(b' \n=\x00,')))
                elif m == 2:
                    del t[k]
                else:
                    t.append(s.pick(list(b' =\n\x00A')))
            self.text = bytes(t)
            self.value = M.unbase16(self.text) if self.suffix == '_base_16' else M.unbase64(self.text)
            if self.suffix == '_base_64' and self.value is not None and M.base64e(self.value) != self.text:
                self.value = M.unbase64(M.base64e(data))     # unused trailing bits: not our question
                self.text = M.base64e(data)
        self.ns = s.below(3)
        self.form = s.below(3)
        self.lit = spell(s, self.text) + self.suffix
        self.labels = [self.suffix[1:], 'malformed' if self.value is None else 'valid']
        if b'\0' in self.text:
            self.labels.append('zero byte')
        if any(c > 127 for c in self.text):
            self.labels.append('high byte')

    def constant(self):
        return self.suffix in ('_c', '_cv', '_base_16', '_base_64')

    def using(self):
        return ['using namespace milo::literal;', 'using milo::literal::operator""%s;' % self.suffix, 'using namespace milo; using namespace literal;'][self.ns]


HEAD = '''#include <milo/literal.h>
#include <array>
#include <cstdio>
#include <cstring>
#include <type_traits>
template<size_t N> struct rec { unsigned char b[N + 1]{}; size_t n = 0; constexpr bool operator==(const rec&) const = default; };
template<size_t N, class C> constexpr rec<N> copy(const C& c) { rec<N> r; r.n = c.size(); for (size_t i = 0; i < c.size() && i < N; i++) r.b[i] = static_cast<unsigned char>(c.data()[i]); return r; }
static int bad;
template<size_t N> void chk(int i, const char* how, const rec<N>& r, const unsigned char* e, size_t n) { if (r.n != n || memcmp(r.b, e, n)) { bad = 1; printf("BAD %d %s: %zu bytes instead of %zu, or other ones\\n", i, how, r.n, n); } }
static void bad_(int i, const char* t) { bad = 1; printf("BAD %d %s\\n", i, t); }
'''


def source(cases):
    t = [HEAD]
    for i, c in cases:
        n = len(c.value) if c.value is not None else 0
        t.append('namespace n%d { %s' % (i, c.using()))
        t.append('#line 1 "case_%d"' % i)
        if c.value is None:
            code = 'base_16_decode' if c.suffix == '_base_16' else 'base_64_decode'
            t.append('static void run() { try { auto v = %s; bad_(%d, "a malformed literal gave a value"); (void)v; } catch (const milo::error& e) { if (!(e == milo::error::codec_%s)) bad_(%d, "the wrong error"); } }' % (c.lit, i, code, i))
        else:
            e = 'static const unsigned char e[] = {%s};' % (','.join(map(str, c.value)) or '0')
            t.append(e)
            view = c.suffix.endswith('v')
            if view:
                t.append('static auto kept = %s;' % c.lit)
            t.append('static auto get() { return %s; }' % c.lit)
            body = '{ auto v = %s; chk(%d, "run-time value", copy<%d>(v), e, %d); }' % (c.lit, i, n, n)
            body += '{ auto* volatile f = &get; auto v = f(); chk(%d, "returned value", copy<%d>(v), e, %d);' % (i, n, n)
            ty = 'char' if c.suffix in ('_c', '_cv') else 'unsigned char'
            body += ' static_assert(std::is_same_v<std::remove_cvref_t<decltype(*v.data())>, %s>);' % ty
            if not view and n:
                body += ' v.data()[0] = 0; auto w = f(); chk(%d, "second value", copy<%d>(w), e, %d);' % (i, n, n)
            body += ' }'
            if view:
                body += 'chk(%d, "kept view", copy<%d>(kept), e, %d);' % (i, n, n)
            if c.constant():
                t.append('constexpr auto k = copy<%d>(%s);' % (n, c.lit))
                t.append('static_assert((%s).size() == %d);' % (c.lit, n))
                if c.suffix == '_cv':
                    t.append('constexpr auto kv = %s;' % c.lit)
                    body += 'chk(%d, "constant view", copy<%d>(kv), e, %d);' % (i, n, n)
                body += 'chk(%d, "constant value", k, e, %d);' % (i, n)
            t.append('static void run() { %s }' % body)
        t.append('}')
    t.append('#line 1 "main"\nint main() {')
    for i, c in cases:
        t.append('try { n%d::run(); } catch (...) { bad_(%d, "threw"); }' % (i, i))
    t.append('return bad; }')
    return '\n'.join(t) + '\n'


def bad_source(cases):
    """every malformed literal where a constant is required"""
    t = [HEAD]
    for i, c in cases:
        t.append('namespace n%d { %s' % (i, c.using()))
        t.append('#line 1 "case_%d"' % i)
        t.append(['static_assert((%s).size() + 1);', 'constexpr size_t k = (%s).size();', 'template<size_t N> struct q {}; q<(%s).size()> x;'][c.form] % c.lit)
        t.append('}')
    t.append('int main() {}')
    return '\n'.join(t) + '\n'


def attempt(tmp, name, cases, flags, bad):
    p = '%s/%s' % (tmp, name)
    with open(p + '.cpp', 'w') as f:
        f.write((bad_source if bad else source)(cases))
    cmd = [B.CXX, *B.BASE, *flags, *B.ASM_DEFS, '-fmax-errors=0', p + '.cpp'] + (['-S', '-o', '/dev/null'] if bad else [*B.asm_objs(), '-Wl,-z,noexecstack', '-o', p])
    rc, out = B.sh(cmd, timeout=300)
    if rc and ('error:' not in out or 'Killed' in out):
        rc, out = B.sh(cmd, timeout=300)
        if rc and ('error:' not in out or 'Killed' in out):
            raise RuntimeError('the compiler failed: ' + out[-1500:])
    return rc, out


def check(tmp, name, cases, flags):
    """-> {id: text}"""
    r = {}
    rc, out = attempt(tmp, name, cases, flags, False)
    if rc:
        if len(cases) == 1:
            return {cases[0][0]: 'does not compile: ' + next((l for l in out.splitlines() if 'error:' in l), '')}
        hit = sorted(set(int(x) for x in re.findall(r'^case_(\d+):', out, re.M)))
        for i, c in cases:
            if i in hit or not hit:
                r = check(tmp, name + '_1', [(i, c)], flags)
                if r:
                    return r
        raise RuntimeError('literals compile alone but not together: ' + out[-1500:])
    try:
        q = subprocess.run([tmp + '/' + name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        if len(cases) > 1:
            for x in cases:
                r = check(tmp, name + '_1', [x], flags)
                if r:
                    return r
        return {cases[0][0]: 'does not end'}
    os.unlink(tmp + '/' + name)
    out = q.stdout.decode('utf-8', 'replace')
    for m in re.finditer(r'^BAD (\d+) (.*)$', out, re.M):
        r.setdefault(int(m.group(1)), m.group(2))
    if q.returncode not in (0, 1) and not r:
        if len(cases) == 1:
            return {cases[0][0]: 'the program ended abnormally'}
        for x in cases:
            r = check(tmp, name + '_1', [x], flags)
            if r:
                return r
        raise RuntimeError('a program of literals ended abnormally')
    if r:
        return r
    bad = [x for x in cases if x[1].value is None]
    if bad:
        rc, out = attempt(tmp, name + 'b', bad, flags, True)
        hit = set(int(x) for x in re.findall(r'^case_(\d+):', out, re.M))
        for x in bad:
            if x[0] not in hit:
                rc, out = attempt(tmp, name + 'b', [x], flags, True)
                if not rc:
                    return {x[0]: 'a malformed literal is accepted as a constant'}
    return r


FLAGS = [['-O0'], ['-O1'], ['-O0', '-std=c++23'], ['-O2', '-funsigned-char']]


def run(run):
    n, size = (6000, 60) if not run.thorough else (60000, 60)
    units = [list(range(i, min(n, i + size))) for i in range(0, n, size)]
    labels, seen, samples = {}, set(), []

    def unit(x):
        k, ids = x
        cs, logs = [], {}
        for i in ids:
            s = pypbt.Src(pypbt.seeded('c25', run.seed, i))
            cs.append((i, Case(s)))
            logs[i] = s.log
        f = FLAGS[k % len(FLAGS)]
        return cs, logs, f, check(run.tmp, 'u%d' % k, cs, f)
    with ThreadPoolExecutor(B.JOBS) as ex:
        for cs, logs, f, r in ex.map(unit, list(enumerate(units))):
            for i, c in cs:
                seen.add(c.lit)
                for l in c.labels:
                    labels[l] = labels.get(l, 0) + 1
                if len(samples) < 6:
                    samples.append(c.lit[:100])
            if r:
                ex.shutdown(wait=False, cancel_futures=True)
                i = min(r)
                report(run, logs[i], f, r[i])
    run.count('literals', n, len(seen), RULE, samples, labels)


def one(tmp, choices, f):
    c = Case(pypbt.Src(forced=choices))
    return c, check(tmp, 'one', [(0, c)], f).get(0)


def report(run, choices, f, text):
    best = choices
    try:
        if one(run.tmp, choices, f)[1]:
            best = pypbt.shrink(choices, lambda x: one(run.tmp, x, f)[1] is not None, budget_s=60, budget_n=100)
        c, t = one(run.tmp, best, f)
    except Exception:
        c, t = Case(pypbt.Src(forced=choices)), None
    run.violation('%s: %s' % (c.lit[:200], t or text), 'property C25\nflags %s\nchoices %s\n# %s\n%s' % (json.dumps(f), json.dumps(best), t or text, source([(0, c)])))


def replay(run, path):
    d = {}
    for l in open(path):
        k, _, v = l.partition(' ')
        if k in ('flags', 'choices'):
            d[k] = json.loads(v)
    c, t = one(run.tmp, d['choices'], d['flags'])
    print(c.lit, t or 'held')
    return 1 if t else 0
