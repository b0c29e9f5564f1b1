"""C19: a valid generated program with one part made wrong does not compile, while the valid one does."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from lib import build as B, gen, pypbt

RULE = 'a generated valid program (see C17) and its neighbours that differ in one place (data that is not bytes, read-only output, fixed result larger than the digest, algorithm of the wrong kind, container of the wrong sort); non-trivial: distinct invalid program'


def build(s, mutate=None):
    mx = [16, 40, 100][s.below(3)]
    return gen.Gen(s, False, mutate).case(mx)


def source(progs):
    hs = set(h for _, g in progs for h in g.headers)
    t = [gen.PRELUDE]
    t += ['#include <milo/%s>' % ('primitive/' + h if not h.startswith('../') else h[3:]) for h in sorted(hs)]
    t += ['#include <milo/container.h>', '#include <milo/error.h>']
    for i, g in progs:
        t.append('#line 1 "case_%d"\nstruct case_%d { static auto run() {\n gen::rec<%d> r;\n%s\n return r; } };' % (i, i, len(g.exp) + 8, g.text()))
    t.append('#line 1 "main"\nint main() { int n = 0;')
    for i, g in progs:
        t.append('n += int(case_%d::run().n);' % i)
    t.append('return n == 7; }')
    return '\n'.join(t) + '\n'


def compiles(tmp, name, progs):
    p = '%s/%s.cpp' % (tmp, name)
    with open(p, 'w') as f:
        f.write(source(progs))
    cmd = [B.CXX, *B.BASE, *B.ASM_DEFS, '-O0', '-fmax-errors=0', '-S', '-o', '/dev/null', p]
    rc, out = B.sh(cmd, timeout=300)
    if rc and ('error:' not in out or 'Killed' in out or 'internal compiler error' in out):
        rc, out = B.sh(cmd, timeout=300)
        if rc and ('error:' not in out or 'Killed' in out or 'internal compiler error' in out):
            raise RuntimeError('the compiler failed: ' + out[-1000:])
    return rc == 0, out


def unit(run, k, ids, per):
    valid, bad = [], []
    for i in ids:
        s = pypbt.Src(pypbt.seeded('c19', run.seed, i))
        g = build(s)
        valid.append((i, g, s.log))
        rr = pypbt.seeded('c19m', run.seed, i)
        live = sorted(g.live)
        for site in rr.sample(live, min(per, len(live))):
            bad.append((len(bad), build(pypbt.Src(forced=s.log), site), s.log, site, g.sites[site]))
    ok, out = compiles(run.tmp, 'v%d' % k, [(i, g) for i, g, _ in valid])
    fail = None
    if not ok:
        for i, g, log in valid:
            ok, out = compiles(run.tmp, 'v%d' % k, [(0, g)])
            if not ok:
                return dict(fail=(g, log, None, 'the valid program does not compile: ' + first(out)), bad=bad)
        raise RuntimeError('valid programs compile alone but not together: ' + out[-1500:])
    ok, out = compiles(run.tmp, 'b%d' % k, [(b[0], b[1]) for b in bad])
    hit = set(int(x) for x in re.findall(r'^case_(\d+):', out, re.M))
    seen = {}
    for b in bad:
        if b[0] not in hit:
            # an error of a shared template is reported once only: this one alone decides
            ok, out1 = compiles(run.tmp, 'b%d' % k, [(0, b[1])])
            if ok:
                return dict(fail=(b[1], b[2], b[3], 'compiles although it has: ' + b[4]), bad=bad)
    return dict(fail=None, bad=bad)


def first(out):
    return next((l for l in out.splitlines() if 'error:' in l), '')[:300]


def wrong(tmp, name, choices, site):
    """does the fault show with these choices?  -> (program, text) or None"""
    g = build(pypbt.Src(forced=choices))
    if site is None:
        ok, out = compiles(tmp, name, [(0, g)])
        return None if ok else (g, 'the valid program does not compile: ' + first(out))
    return None


def wrong_kind(tmp, name, choices, kind):
    g = build(pypbt.Src(forced=choices))
    for site in sorted(g.live):
        if g.sites[site] == kind:
            b = build(pypbt.Src(forced=choices), site)
            if compiles(tmp, name, [(0, b)])[0] and compiles(tmp, name, [(0, g)])[0]:
                return b, 'compiles although it has: ' + kind
    return None


def judge(tmp, choices, kind):
    if kind is None:
        return wrong(tmp, 'one', choices, None)
    return wrong_kind(tmp, 'one', choices, kind)


def run(run):
    B.asm_objs()
    n, per, size = (4500, 4, 60) if not run.thorough else (60000, 10, 60)
    units = [list(range(i, min(n, i + size))) for i in range(0, n, size)]
    labels, seen, samples, total = {}, set(), [], 0
    with ThreadPoolExecutor(B.JOBS) as ex:
        for r in ex.map(lambda x: unit(run, x[0], x[1], per), list(enumerate(units))):
            for b in r['bad']:
                total += 1
                labels[b[4]] = labels.get(b[4], 0) + 1
                seen.add(pypbt.fingerprint(b[1].text()))
                if len(samples) < 6:
                    samples.append('%s: %s' % ('; '.join(b[1].desc), b[4]))
            if r['fail']:
                ex.shutdown(wait=False, cancel_futures=True)
                report(run, *r['fail'])
    run.count('rejections', total + n, len(seen), RULE, samples, labels)


def report(run, g, choices, site, text):
    kind = None if site is None else build(pypbt.Src(forced=choices)).sites[site]
    best, t = choices, (g, text)
    try:
        if judge(run.tmp, choices, kind):
            best = pypbt.shrink(choices, lambda c: judge(run.tmp, c, kind) is not None, budget_s=60, budget_n=80)
            t = judge(run.tmp, best, kind) or t
    except Exception:
        pass
    run.violation('%s: %s' % ('; '.join(t[0].desc), t[1]),
                  'property C19\nkind %s\nchoices %s\n# %s\n%s' % (json.dumps(kind), json.dumps(best), t[1], source([(0, t[0])])))


def replay(run, path):
    d = {}
    for l in open(path):
        k, _, v = l.partition(' ')
        if k in ('kind', 'choices'):
            d[k] = json.loads(v)
    t = judge(run.tmp, d['choices'], d['kind'])
    print(t[1] if t else 'held')
    return 1 if t else 0
