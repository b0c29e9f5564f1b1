#!/usr/bin/env python3
"""seed.py ID...    confirms planted changes in a scratch copy of /repo: the patch applies and touches allowed
files, the tree builds, the stable tests pass, the demonstration passes without and fails with it.
seed.py --checks ID...   also runs the property's quick check against the patched copy (MILO_REPO)."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get('SEED_DIR', '/tmp/seedwork')
R, P = S + '/repo', S + '/vp'


def sh(cmd, timeout=1500, **kw):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def prepare():
    head = sh('git -C /repo rev-parse HEAD')[1].strip()
    if not os.path.isdir(R):
        os.makedirs(S, exist_ok=True)
        sh(['git', 'clone', '-q', '/repo', R])
        shutil.copytree('/opt/vp', P)
        t = open(P + '/common.sh').read().replace('REPO=/repo', 'REPO=' + R)
        open(P + '/common.sh', 'w').write(t)
        for f in ('build.sh', 'test.sh'):
            t = open(P + '/' + f).read().replace('/opt/vp', P)
            open(P + '/' + f, 'w').write(t)
    sh('git -C %s fetch -q && git -C %s checkout -q -f %s && git -C %s clean -fdq' % (R, R, head, R))
    rc, out = sh(['bash', P + '/build.sh'])
    if rc:
        sys.exit('the unchanged tree does not build\n' + out[-2000:])


def demo(d):
    t = S + '/demo'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t)
    for f in ('patch.diff', 'meta.json'):
        os.unlink(t + '/' + f)
    t0 = time.time()
    try:
        rc, out = sh(['bash', t + '/demo.sh'], timeout=300, cwd=R)
    except subprocess.TimeoutExpired:
        rc, out = 'timeout', ''
    return rc, out.strip()[-400:], time.time() - t0


def main():
    a = sys.argv[1:]
    checks = '--checks' in a
    tests = '--notests' not in a
    a = [x for x in a if not x.startswith('--')]
    prepare()
    stable = json.load(open('/opt/vp/BASELINE.json'))
    for i in a:
        d = V + '/seeded/' + i
        if not os.path.isdir(d):
            d = V + '/planted_asm/' + i
        m = json.load(open(d + '/meta.json'))
        r0 = demo(d)
        rc, out = sh('git -C %s apply %s/patch.diff' % (R, d))
        if rc:
            print(i, 'does not apply', out)
            continue
        res = ['clean demo %s (%.0fs)' % (r0[0], r0[2]) + ('' if r0[0] == 0 else ' ' + r0[1])]
        try:
            rc, out = sh(['bash', P + '/build.sh'])
            if rc:
                res.append('DOES NOT BUILD ' + out[-1500:])
            else:
                r1 = demo(d)
                res.append('patched demo %s (%.0fs): %s' % (r1[0], r1[2], r1[1]))
                if tests:
                    sh(['bash', P + '/test.sh', S + '/o.json'])
                    o = json.load(open(S + '/o.json'))
                    res.append('tests %d passed, failed %s' % (len(o['passed']), o['failed'][:5]))
                if checks:
                    t0 = time.time()
                    rc, out = sh([sys.executable, V + '/run.py', m['property']], env=dict(os.environ, MILO_REPO=R))
                    v = [l for l in out.splitlines() if 'VIOLATION' in l or l.startswith('[')]
                    res.append('check %s rc %d %.0fs %s' % (m['property'], rc, time.time() - t0, ' '.join(v[-2:])[:400]))
        finally:
            sh('git -C %s checkout -q -f' % R)
            sh(['bash', P + '/build.sh'])
        print(i, m['property'], ' | '.join(res), flush=True)


main()
