#!/usr/bin/env python3
"""mutate.py COUNT SEED [PATH-SUBSTRING...]    measures the checks: draws small changes of the library's sources in a scratch clone
($MUT_DIR, default /tmp/mut) and runs, from a scratch copy of this directory, the quick checks until one reports a
violation.  Prints one line per change; those that no check reports (SURVIVED) are looked at by hand."""
import os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get('MUT_DIR', '/tmp/mut')
R, W = S + '/repo', S + '/verif'


def sh(cmd, timeout=1800, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf-8', 'replace')


OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '),
       (r' \* ', ' / '), (r' / ', ' * '), (r' % ', ' / '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \| ', ' ^ '), (r' \^ ', ' | '), (r' & ', ' | '),
       (r' << ', ' >> '), (r' >> ', ' << '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \^= ', ' |= '), (r' \|= ', ' &= '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\bif \((?!constexpr)', 'if (!'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r' ~', ' '), (r'return (?=[a-z])', 'return {}; //'), (r'!', '')]
ASM = [(r'\badd\b', 'sub'), (r'\bsub\b', 'add'), (r'\binc\b', 'dec'), (r'\bjae\b', 'ja'), (r'\bja\b', 'jae'), (r'\bjb\b', 'jbe'), (r'\bjbe\b', 'jb'), (r'\bje\b', 'jne'),
       (r'\bjne\b', 'je'), (r'\bjz\b', 'jnz'), (r'\bjnz\b', 'jz'), (r'\bxmm(\d+)\b', None), (r'\bymm(\d+)\b', None), (r'\br(\d+)\b', None), (r'\bmovdqu\b', 'movdqa'), (r'\bvmovdqu\b', 'vmovdqa')]


def candidates(path, text):
    """(line, column range, replacement)"""
    out = []
    lines = text.split('\n')
    comment = False
    asm = path.endswith('.asm')
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'):
            comment = True
        if comment:
            comment = '*/' not in s
            continue
        if not s or s.startswith(('//', '#', ';', '%', 'template', 'static_assert', 'using', 'namespace', 'requires', 'section', 'global', 'bits', 'default', 'typename', 'meta::')) or '"' in s:
            continue
        code = l.split(';')[0] if asm else l
        for a, b in ASM if asm else OPS:
            for m in re.finditer(a, code):
                if b is None:
                    k = (int(m.group(1)) + 1) % 16
                    out.append((n, m.start(), m.end(), code[m.start():m.end()].replace(m.group(1), str(k))))
                else:
                    out.append((n, m.start(), m.end(), b))
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', code):
            v = int(m.group(0), 0)
            out.append((n, m.start(), m.end(), str(v + 1)))
            if v:
                out.append((n, m.start(), m.end(), str(v - 1)))
        if asm:
            if re.match(r'\s+[a-z]', code) and not s.endswith(':'):
                out.append((n, 0, len(l), ''))
        elif s.endswith(';') and re.match(r'(?!return|auto|const|size_t|uint|char|break|continue)[a-z_.:\[\]<>]+.*( [-+^|&*]?= |\();?', s):
            out.append((n, 0, len(l), ';'))
        elif s.endswith('(') and re.match(r'[a-z_.:>-]+(<.*>)?\($', s):
            k, d = n, 0                       # a call over several lines
            while k < len(lines) and k < n + 12:
                d += lines[k].count('(') - lines[k].count(')')
                if d == 0:
                    break
                k += 1
            if d == 0 and lines[k].strip() == ');':
                out.append((n, k, None, None))
    return out


def mutate(path, text, rng):
    cs = candidates(path, text)
    if not cs:
        return None
    # kinds of change equally likely, places within a kind too
    kinds = {}
    for c in cs:
        kinds.setdefault('call' if c[2] is None else c[3] if not c[3].lstrip('-').isdigit() else 'number', []).append(c)
    c = rng.choice(kinds[rng.choice(sorted(kinds))])
    lines = text.split('\n')
    if c[2] is None:
        old = ' '.join(x.strip() for x in lines[c[0]:c[1] + 1])
        lines[c[0]:c[1] + 1] = [';'] + [''] * (c[1] - c[0])
        return '\n'.join(lines), c[0] + 1, old, '(removed)'
    l = lines[c[0]]
    lines[c[0]] = l[:c[1]] + c[3] + l[c[2]:]
    return '\n'.join(lines), c[0] + 1, l.strip(), lines[c[0]].strip()


def order(path):
    f = []
    for key, ids in [('hash', 'C01 C14 C15'), ('hmac', 'C04'), ('hkdf', 'C06'), ('pbkdf', 'C07'), ('poly', 'C05 C09'), ('chacha', 'C08 C09 C14 C15 C22'), ('aead', 'C09 C10 C17'), ('base_16', 'C11'), ('base_64', 'C12'),
                     ('/arch', 'C35 C15 C22'), ('impl', 'C35 C14'), ('error', 'C13'), ('literal', 'C25'), ('app/', 'C26 C27 C28'), ('codegen', 'C29'), ('test.h', 'C30 C29'), ('apie', 'C17 C18 C13'), ('codec/', 'C11 C12'), ('mac/', 'C04 C05'),
                     ('kdf/', 'C06 C07'), ('cipher/', 'C08'), ('meta', 'C19 C17'), ('option', 'C14 C19'), ('container', 'C17'), ('asm', 'C14 C15 C22')]:
        if key in path:
            f += [i for i in ids.split() if i not in f]
    rest = 'C02 C03 C16 C17 C18 C20 C21 C13 C19 C14 C09 C10 C24 C23 C22 C15 C25 C01 C04 C05 C06 C07 C08 C11 C12 C34 C35 C30 C32 C31 C37 C38 C39 C40'.split()
    if 'app/' in path:
        return f
    if 'codegen' in path:
        return ['C29']
    return f + [i for i in rest if i not in f]


def main():
    count, seed, subs = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    rng = random.Random(seed)
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(R):
        sh(['git', 'clone', '-q', '/repo', R])
    sh(['git', '-C', R, 'fetch', '-q'])
    if not os.path.isdir(W):
        sh(['git', 'clone', '-q', V, W])
    sh(['git', '-C', W, 'pull', '-q'])
    base = sh(['git', '-C', '/repo', 'rev-parse', 'HEAD'])[1].strip()
    files = sh('git -C /repo ls-files src app tool/codegen | grep -v -e x86_32 -e dummy -e CMake -e setup.py', shell=True)[1].split()
    files = [f for f in files if not subs or any(s in f for s in subs)]
    env = dict(os.environ, MILO_REPO=R)
    for k in range(count):
        sh(['git', '-C', R, 'checkout', '-q', '-f', base])
        while True:
            f = rng.choice(files)
            text = open(R + '/' + f).read()
            m = mutate(f, text, rng)
            if m and m[0] != text:
                break
        open(R + '/' + f, 'w').write(m[0])
        t0 = time.time()
        verdict = 'SURVIVED'
        if f.startswith('src') and not f.endswith('.asm'):
            rc, out = sh('printf "#include <milo/primitive/hash/sha.h>\n#include <milo/%s>\nint main() { return 0; }" | g++ -std=c++20 -w -Isrc -DMILO_INTERNAL_ASM=true -DMILO_INTERNAL_ABI_UNIX=true -fsyntax-only -x c++ -' % f[9:], shell=True, cwd=R)
            if rc:
                continue
        log = []
        for i in order(f):
            rc, out = sh(['python3', W + '/run.py', i], env=env)
            if rc != 0:
                why = [l for l in out.splitlines() if 'VIOLATION' in l or l.startswith('[%s]' % i)]
                what = 'does not compile' if 'no longer compile' in out else ''
                verdict = ('caught by' if rc == 1 else 'ERROR %d in' % rc) + ' %s %s' % (i, what)
                if rc != 1:
                    verdict += ' ' + out[-300:].replace('\n', ' / ')
                break
        print('%s | %s:%d | %s  -->  %s | %.0fs' % (verdict, f, m[1], m[2], m[3], time.time() - t0), flush=True)
        for d in ('build',):
            for g in os.listdir(W + '/' + d) if os.path.isdir(W + '/' + d) else []:
                p = W + '/' + d + '/' + g
                if os.path.isfile(p) and os.stat(p).st_mtime > t0 - 1:
                    os.unlink(p)


main()
