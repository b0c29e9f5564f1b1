"""Compiles and runs batches of generated programs and judges every case of them."""
import os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from lib import build as B, gen, pypbt

MAIN = r'''
#include <cstdio>
#include <cstring>
template<class R> static int chk(int i, const char* what, const R& r, const unsigned char* e, size_t n)
{
    if (r.n == n && !memcmp(r.b, e, n)) return 0;
    size_t k = 0;
    while (k < n && k < r.n && r.b[k] == e[k]) k++;
    printf("BAD %d %s: %zu bytes recorded, %zu expected, first difference at %zu\n", i, what, r.n, n, k);
    return 1;
}
'''


def source(cases, ce):
    """cases: list of (id, Gen)"""
    hs = set(h for _, g in cases for h in g.headers)
    t = [gen.PRELUDE]
    t += ['#include <milo/%s>' % ('primitive/' + h if not h.startswith('../') else h[3:]) for h in sorted(hs)]
    t += ['#include <milo/container.h>', '#include <milo/error.h>', MAIN]
    for i, g in cases:
        n = len(g.exp)
        t.append('struct case_%d { static %s auto run() {\n gen::rec<%d> r;\n%s\n return r; } };' % (i, 'constexpr' if ce else '', n + 8, g.text()))
        t.append('static const unsigned char exp_%d[] = {%s};' % (i, ','.join(map(str, g.exp)) or '0'))
        if ce:
            t.append('constexpr auto c_%d = case_%d::run();' % (i, i))
    t.append('int main() { setvbuf(stdout, nullptr, _IOLBF, 0); int bad = 0;')
    for i, g in cases:
        n = len(g.exp)
        t.append('{ printf("AT %d\\n"); auto* volatile f = &case_%d::run; auto r = f(); bad += chk(%d, "run-time value", r, exp_%d, %d);%s }' % (
            i, i, i, i, n,
            ' bad += chk(%d, "constant value", c_%d, exp_%d, %d); if (c_%d.n != r.n || memcmp(c_%d.b, r.b, r.n)) { bad++; printf("BAD %d constant and run-time value differ\\n"); }' % (i, i, i, n, i, i, i) if ce else ''))
    t.append('return bad != 0; }')
    return '\n'.join(t) + '\n'


def execute(tmp, name, cases, ce, flags, asm=True, asan=False):
    """-> dict id -> text of the failure.  Empty: all held"""
    src, exe = '%s/%s.cpp' % (tmp, name), '%s/%s' % (tmp, name)
    with open(src, 'w') as f:
        f.write(source(cases, ce))
    cmd = [B.CXX, '-I' + B.REPO + '/src', '-w', *flags, *(B.ASM_DEFS if asm else B.NOASM_DEFS)]
    if ce:
        cmd += ['-fconstexpr-ops-limit=4294967296', '-fconstexpr-loop-limit=10000000', '-fconstexpr-cache-depth=64']
    cmd += [src, '-o', exe, *(B.asm_objs() if asm else []), '-Wl,-z,noexecstack']
    rc, out = B.sh(cmd, timeout=400)
    if rc and ('error:' not in out or 'Killed' in out or 'internal compiler error' in out):
        rc, out = B.sh(cmd, timeout=400)
    if rc == 124:
        raise RuntimeError('compiling generated programs took too long')
    r = {}
    if rc:
        if len(cases) == 1:
            return {cases[0][0]: 'does not compile: ' + '\n'.join([l for l in out.splitlines() if 'error' in l or 'undefined' in l][:4])}
        ids = set(i for i, _ in cases)
        hit = sorted(set(int(x) for x in re.findall(r'\b(?:case|c)_(\d+)\b', '\n'.join(l for l in out.splitlines() if re.search('error|In instantiation|required from|in .constexpr. expansion|In static member function', l)))) & ids)
        # confirm one by one
        byid = dict(cases)
        for i in hit[:6] or [i for i, _ in cases]:
            r.update(execute(tmp, name + '_1', [(i, byid[i])], ce, flags, asm, asan))
            if r:
                return r
        k = len(cases) // 2
        for half in (cases[:k], cases[k:]):
            x = execute(tmp, name + '_h', half, ce, flags, asm, asan)
            if x:
                return x
        raise RuntimeError('a unit of generated programs does not compile, but its halves do:\n' + out[-2000:])
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        rc, out = p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        rc, out = 124, (e.stdout or b'').decode('utf-8', 'replace')
    os.unlink(exe)
    for l in out.splitlines():
        m = re.match(r'BAD (\d+) (.*)', l)
        if m:
            r.setdefault(int(m.group(1)), m.group(2))
    if rc not in (0, 1):
        at = re.findall(r'^AT (\d+)$', out, re.M)
        if at:
            r.setdefault(int(at[-1]), 'the program ended abnormally (status %d): %s' % (rc, ' '.join(out.splitlines()[-12:])[-600:] if asan else ''))
        else:
            raise RuntimeError('a generated program ended with status %d' % rc)
    return r


class Campaign:
    """one part of a check: cases drawn from (key, index), in batches over the processors"""

    def __init__(self, run, part, ce, maxlen, per_unit, key):
        self.run, self.part, self.ce, self.maxlen, self.per_unit, self.key = run, part, ce, maxlen, per_unit, key

    def case(self, i):
        # the length limit is part of the case
        s = pypbt.Src(pypbt.seeded(self.key, self.run.seed, i))
        return self.build(s), s.log

    def build(self, s):
        mx = self.maxlen[s.below(len(self.maxlen))]
        return gen.Gen(s, self.ce).case(mx)

    def go(self, total, configs, rule):
        run = self.run
        B.asm_objs()
        units = []
        i = 0
        while i < total:
            units.append(list(range(i, min(total, i + self.per_unit))))
            i += self.per_unit
        labels, seen, samples = {}, set(), []

        def unit(u):
            k, ids = u
            cs, logs = [], {}
            for i in ids:
                g, log = self.case(i)
                cs.append((i, g))
                logs[i] = log
            cfg = configs[k % len(configs)]
            r = execute(run.tmp, '%s_%d' % (self.part, k), cs, self.ce, *cfg)
            return k, cs, logs, cfg, r
        with ThreadPoolExecutor(B.JOBS) as ex:
            for k, cs, logs, cfg, r in ex.map(unit, list(enumerate(units))):
                for i, g in cs:
                    t = g.text()
                    seen.add(pypbt.fingerprint([t]))
                    for l in g.labels:
                        labels[l] = labels.get(l, 0) + 1
                    if len(samples) < 6:
                        samples.append('; '.join(g.desc))
                if r:
                    ex.shutdown(wait=False, cancel_futures=True)
                    i = min(r)
                    self.report(logs[i], cfg, r[i])
        run.count(self.part, total, len(seen), rule, samples, labels)

    def one(self, choices, cfg):
        g = self.build(pypbt.Src(forced=choices))
        r = execute(self.run.tmp, 'one%d' % (os.getpid()), [(0, g)], self.ce, *cfg)
        return g, r.get(0)

    def report(self, choices, cfg, text):
        def fails(c):
            return self.one(c, cfg)[1] is not None
        best = choices
        try:
            if fails(choices):
                best = pypbt.shrink(choices, fails, budget_s=90, budget_n=150)
            g, t = self.one(best, cfg)
        except Exception as e:      # reporting must not hide the failure
            g, t = self.build(pypbt.Src(forced=choices)), None
        import json
        head = 'property %s\npart %s\nconfig %s\nchoices %s\n' % (self.run.prop, self.part, json.dumps(cfg), json.dumps(best))
        self.run.violation('%s: %s' % ('; '.join(g.desc), t or text), head + '# %s\n# %s\n' % ('; '.join(g.desc), (t or text).replace('\n', '\n# ')) + source([(0, g)], self.ce))


def replay(campaigns, run, path):
    import json
    d = {}
    for l in open(path):
        k, _, v = l.partition(' ')
        if k in ('part', 'config', 'choices'):
            d[k] = v.strip()
    c = next(c for c in campaigns(run) if c.part == d['part'])
    g, t = c.one(json.loads(d['choices']), json.loads(d['config']))
    print('; '.join(g.desc))
    print(t or 'held')
    return 1 if t else 0
