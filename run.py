#!/usr/bin/env python3
"""run.py ID            runs the check of one property (VERIF_SEED, VERIF_TIER)
   run.py ID --replay F  runs one recorded case again
   run.py --list"""
import importlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from lib import build as B
from lib import table


class Violation(Exception):
    def __init__(self, text, replay):
        super().__init__(text)
        self.replay = replay


class Run:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.evals = 0
        self.distinct = 0
        self.rules, self.samples, self.parts = [], [], []
        self.labels = {}
        self.known_hits = {}
        self.tmp = tempfile.mkdtemp(prefix='milo_%s_' % prop)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        self.known = {}          # key -> text
        try:
            for l in open(VERIF + '/KNOWN_FINDINGS.txt'):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
                if m and m.group(1) == prop:
                    self.known[m.group(2)] = m.group(3).strip()
        except FileNotFoundError:
            pass

    def elapsed(self):
        return time.time() - self.t0

    def replay_path(self):
        d = VERIF + '/replay'
        os.makedirs(d, exist_ok=True)
        return '%s/%s.replay' % (d, self.prop)

    def violation(self, text, replay_text):
        p = self.replay_path()
        with open(p, 'w') as f:
            f.write(replay_text)
        raise Violation(text, p)

    def count(self, part, evals, distinct, rule=None, samples=(), labels=None):
        self.evals += evals
        self.distinct += distinct
        self.parts.append({'part': part, 'evaluations': evals, 'distinct_nontrivial': distinct})
        if rule and rule not in self.rules:
            self.rules.append(rule)
        self.samples += list(samples)[:6]
        for k, v in (labels or {}).items():
            self.labels[part + '/' + k] = self.labels.get(part + '/' + k, 0) + v

    # ---- a C++ harness
    def cxx(self, name, sources, flavour='o2', asm=True, extra=(), libs=(), scale=1.0, only=None, env=None):
        t = time.time()
        libs = ['@flags:%d:%d' % (self.seed, 200 if self.thorough else 56) if l == '@flags' else l for l in libs]
        try:
            exe = B.harness(sources, flavour, asm, extra, libs)
        except B.BuildError as e:
            self.build_failed(name, e)
        print('[%s] built %s (%s) in %.1fs' % (self.prop, name, flavour, time.time() - t), flush=True)
        tmp = os.path.join(self.tmp, name)
        os.makedirs(tmp, exist_ok=True)
        out = os.path.join(tmp, 'out')
        cmd = [exe, '--seed', str(self.seed), '--tier', self.tier, '--tmp', tmp, '--out', out, '--scale', str(scale)]
        if self.known:
            cmd += ['--known', ','.join(self.known)]
        if only:
            cmd += ['--only', only]
        e = dict(os.environ)
        e.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0',
                  'UBSAN_OPTIONS': 'print_stacktrace=0:abort_on_error=1', 'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1'})
        e.update(env or {})
        p = subprocess.run(cmd, env=e)
        if p.returncode == 1 and os.path.exists(out + '.replay'):
            body = open(out + '.replay').read()
            head = 'property %s\nharness %s\n' % (self.prop, json.dumps({'name': name, 'sources': sources, 'flavour': flavour, 'asm': asm, 'extra': list(extra), 'libs': list(libs), 'env': env or {}}))
            self.violation('%s: see replay' % name, head + body)
        if p.returncode != 0:
            raise RuntimeError('%s ended with status %d' % (name, p.returncode))
        r = json.load(open(out + '.json'))
        for k, v in r['known'].items():
            self.known_hits[k] = self.known_hits.get(k, 0) + v
        self.count(name, r['evaluations'], r['distinct_nontrivial'], r['rule'], r['samples'], r['labels'])

    def build_failed(self, name, e):
        ok, out = B.canary()
        print(e.log[-3000:])
        if not ok:
            raise RuntimeError('the toolchain or the library does not compile at all: ' + out[-500:])
        first = next((l for l in e.log.splitlines() if 'error' in l), '')
        self.violation('valid uses of the public interface no longer compile or link (%s): %s' % (name, first),
                       'property %s\nbuild %s\n%s\n' % (self.prop, e.cmd, e.log[-20000:]))

    def evidence(self, violations):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
              'coverage': {'evaluations': self.evals, 'distinct_nontrivial': self.distinct,
                           'rule': ' || '.join(self.rules) or 'none', 'samples': self.samples[:24] or ['none'],
                           'parts': self.parts, 'labels': self.labels},
              'assumptions': table.CHECKS[self.prop].get('assumptions', []),
              'wall_s': round(self.elapsed(), 3), 'violations': violations}
        p = '%s/evidence/%s.json' % (VERIF, self.prop)
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(p + '.tmp', p)


def replay(prop, path):
    text = open(path).read().splitlines()
    for l in text:
        if l.startswith('harness '):
            h = json.loads(l[8:])
            exe = B.harness(h['sources'], h['flavour'], h['asm'], h['extra'], h['libs'])
            tmp = tempfile.mkdtemp(prefix='milo_replay_')
            e = dict(os.environ)
            e.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1', 'UBSAN_OPTIONS': 'abort_on_error=1', 'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1'})
            e.update(h['env'])
            p = os.path.join(tmp, 'r')
            open(p, 'w').write('\n'.join(text[2:]) + '\n')
            rc = subprocess.run([exe, '--replay', p, '--tmp', tmp], env=e).returncode
            shutil.rmtree(tmp)
            return rc
    run = Run(prop, 1, 'quick')
    mod = importlib.import_module('checks.' + table.CHECKS[prop]['py'])
    return mod.replay(run, path)


def main():
    a = sys.argv[1:]
    if a == ['--list']:
        print('\n'.join(sorted(table.CHECKS)))
        return 0
    prop = a[0]
    if len(a) == 3 and a[1] == '--replay':
        return replay(prop, a[2])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in a:
        tier = 'thorough'
    run = Run(prop, seed, 'thorough' if tier == 'thorough' else 'quick')
    rc = 2
    try:
        spec = table.CHECKS[prop]
        for u in spec.get('cxx', []):
            u = dict(u)
            if u.pop('thorough_only', False) and not run.thorough:
                continue
            run.cxx(**u)
        if 'py' in spec:
            importlib.import_module('checks.' + spec['py']).run(run)
        run.evidence(0)
        for k in sorted(run.known):
            print('KNOWN-FINDING: property=%s %s (%s, met in %d cases)' % (prop, run.known[k], k, run.known_hits.get(k, 0)))
        print('[%s] held: %d cases, %d distinct non-trivial, %.1fs' % (prop, run.evals, run.distinct, run.elapsed()))
        rc = 0
    except Violation as v:
        run.evidence(1)
        print('[%s] %s' % (prop, v))
        print('VIOLATION property=%s replay=%s' % (prop, v.replay))
        rc = 1
    except Exception:
        traceback.print_exc()
        print('[%s] the check could not be completed' % prop)
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)
        B.prune()
    return rc


if __name__ == '__main__':
    sys.exit(main())
