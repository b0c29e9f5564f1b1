"""Builds what a check needs from /repo's working tree.  Results are cached in /verif/build by a
hash over every input (all of /repo's src, app and tool, the harness, the flags), so a changed tree
is always rebuilt."""
import fcntl, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MILO_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
CXX = 'g++'
ASM_DEFS = ['-DMILO_INTERNAL_ASM=true', '-DMILO_INTERNAL_ABI_UNIX=true']
NOASM_DEFS = ['-DMILO_INTERNAL_ASM=false']
BASE = ['-std=c++20', '-w', '-I' + REPO + '/src']
FLAVOURS = {
    'o2': ['-O2'],
    'o0': ['-O0'],
    'o1': ['-O1'],
    'os': ['-Os'],
    'o3n': ['-O3', '-march=native'],
    'cov': ['-O2', '-fsanitize-coverage=trace-pc,trace-cmp'],
    'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'tsan': ['-O1', '-g', '-fsanitize=thread'],
}


class BuildError(Exception):
    def __init__(self, cmd, log):
        super().__init__(log)
        self.cmd, self.log = cmd, log


def _files(root, exts=None):
    r = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if not x.startswith(('.', '_', '__pycache__')))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                r.append(p)
    return r


_tree = {}


def tree_hash(*roots):
    key = roots
    if key not in _tree:
        h = hashlib.sha256()
        for r in roots:
            for f in ([r] if os.path.isfile(r) else _files(r)):
                h.update(f.encode() + b'\0')
                with open(f, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
        _tree[key] = h.hexdigest()
    return _tree[key]


def src_hash():
    return tree_hash(REPO + '/src')


def lib_hash():
    return tree_hash(VERIF + '/lib')


def sh(cmd, timeout=800, **kw):
    """run; returns (rc, out+err)"""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf-8', 'replace') + '\n(timeout)'


def cached(key, make):
    """path of the file made by make(tmp path) for this key"""
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, hashlib.sha256(key.encode()).hexdigest()[:32])
    if not os.path.exists(path):
        tmp = '%s.%d.%d.tmp' % (path, os.getpid(), id(make))
        try:
            make(tmp)
            os.rename(tmp, path)
        finally:
            if os.path.exists(tmp):
                os.unlink(tmp)
    else:
        os.utime(path)
    return path


def prune(limit=3 << 30):
    try:
        fs = sorted((os.stat(os.path.join(BUILD, f)).st_mtime, os.path.join(BUILD, f)) for f in os.listdir(BUILD))
        total = sum(os.stat(f).st_size for _, f in fs)
        for t, f in fs:
            if total <= limit:
                break
            if os.path.isfile(f) and time.time() - t > 1800:
                total -= os.stat(f).st_size
                os.unlink(f)
    except OSError:
        pass


def _command(cmd):
    # the machine may be short of memory for a moment: only a repeated failure counts
    for i in range(2):
        rc, out = sh(cmd)
        if rc == 0:
            return
        if 'error:' in out and 'Killed' not in out and 'internal compiler error' not in out:
            break
        time.sleep(1)
    raise BuildError(' '.join(cmd), out)


def obj(src, flags, extra_key=''):
    """object file of one harness source"""
    key = '\n'.join(['obj', src, tree_hash(src), lib_hash(), src_hash(), extra_key] + flags)
    return cached(key, lambda t: _command([CXX, *flags, '-x', 'c++', '-c', src, '-o', t]))


def plain_obj(src, flags):
    """object of harness code that does not include milo"""
    key = '\n'.join(['plain', src, tree_hash(src), lib_hash()] + flags)
    return cached(key, lambda t: _command([CXX, *flags, '-c', src, '-o', t]))


def asm_sources():
    return [f for f in _files(REPO + '/src') if f.endswith('.asm') and not f.endswith('abi.asm')]


def asm_obj(src, wind=False):
    # for the Windows calling convention too, as an object of this system under other names
    defs = ['-DMILO_INTERNAL_ASM=true', '-DMILO_INTERNAL_ABI_WIND=true', '--gprefix', 'wind_'] if wind else ASM_DEFS
    key = '\n'.join(['asm', src, src_hash()] + (defs if wind else []))
    return cached(key, lambda t: _command(['nasm', '-f', 'elf64', '-i', REPO + '/src/milo/internal/arch/x86_64', *defs, '-o', t, src]))


def asm_objs(pool=None, skip=()):
    srcs = [s for s in asm_sources() if os.path.basename(s) not in skip]
    return list((pool or map_)(asm_obj, srcs)) if pool is None else list(pool.map(asm_obj, srcs))


def map_(f, xs):
    return [f(x) for x in xs]


def link(objs, flags, out_key=''):
    key = '\n'.join(['link', out_key] + objs + flags)
    # -z muldefs: whether several units may be combined is the embedding check's question only
    path = cached(key, lambda t: _command([CXX, *objs, *flags, '-Wl,-z,muldefs', '-Wl,-z,noexecstack', '-o', t, '-lpthread']))
    os.chmod(path, 0o755)
    return path


def harness(sources, flavour='o2', asm=True, extra=(), libs=()):
    """a PBT binary from checks/<sources> against the current tree"""
    fl = FLAVOURS[flavour]
    defs = ASM_DEFS if asm else NOASM_DEFS
    flags = BASE + fl + defs + list(extra)
    served = [l for l in libs if l in SERVERS or l.startswith('@flags:')]
    libs = [l for l in libs if l not in served]
    for l in served:
        with ThreadPoolExecutor(JOBS) as ex:
            fs = [(n, ex.submit(server, w, f)) for n, w, f in (SERVERS.get(l) or drawn(*map(int, l.split(':')[1:])))]
            flags = flags + ['-DSERVERS=' + ', '.join('{"%s", "%s"}' % (n, f.result()) for n, f in fs)]
    # the engine itself is not instrumented for coverage, but must agree with the sanitizers
    efl = ['-std=c++20', '-w', '-O2'] + [f for f in fl if f.startswith('-fsanitize=') or f.startswith('-fno-sanitize')]
    with ThreadPoolExecutor(JOBS) as ex:
        # "file.cpp@A=1" compiles file.cpp with -DA=1
        # the application's own headers count only where they are used
        app = tree_hash(REPO + '/app') if any('_app' in s for s in sources) else ''
        if app:
            flags = flags + ['-I' + REPO + '/app/include', '-DAPP_MAIN="%s/app/main.cpp"' % REPO]
        os_ = [ex.submit(obj, os.path.join(VERIF, 'checks', s.split('@')[0]), flags + ['-D' + d for d in s.split('@')[1:]], app) for s in sources]
        es = [ex.submit(plain_obj, os.path.join(VERIF, 'lib', s), efl) for s in ('pbt.cpp', 'ref.cpp')]
        as_ = [ex.submit(asm_obj, s, '@wind' in libs) for s in asm_sources()] if asm else []
        objs = [f.result() for f in os_ + es + as_]
    libs = list(libs)
    names = lambda: sorted({l.split()[2] for o in as_ for l in sh(['nm', '-g', '--defined-only', o.result()])[1].splitlines() if len(l.split()) == 3 and l.split()[1] == 'T'})
    if '@wrap' in libs:
        libs.remove('@wrap')
        objs.append(trampolines('tramp', names()))
        libs += ['-Wl,--wrap=' + n for n in names()]
    if '@wind' in libs:
        libs.remove('@wind')
        objs.append(trampolines('wind', [n[len('wind_'):] for n in names()]))
    return link(objs, [f for f in fl if f.startswith('-fsanitize=') and 'trace' not in f] + libs, flavour)


def trampolines(how, names):
    """every call of an assembly function goes through lib/tramp.S or lib/wind.S first"""
    text = open('%s/lib/%s.S' % (VERIF, how)).read() + ''.join('STUB %s\n' % n for n in names)
    def make(t):
        with open(t + '.S', 'w') as f:
            f.write(text)
        try:
            _command([CXX, '-c', t + '.S', '-o', t])
        finally:
            os.unlink(t + '.S')
    return cached('tramp\n' + text, make)


UB = ['-fsanitize=undefined', '-fno-sanitize-recover=all', '-fsanitize-undefined-trap-on-error']
CE = ['-DALLOCATES', '-D__builtin_is_constant_evaluated()=true']
BIG = CE + ['-U__BYTE_ORDER__', '-D__BYTE_ORDER__=__ORDER_BIG_ENDIAN__']
SERVERS = {'@w32': [('-O2', 32, ['-O2']), ('-O0', 32, ['-O0']), ('undefined behaviour trapping', 32, ['-O1'] + UB)],
           '@big': [('64 bits', 64, ['-O2'] + BIG), ('32 bits', 32, ['-O2'] + BIG), ('64 bits, undefined behaviour trapping', 64, ['-O1'] + UB + BIG)],
           '@const': [('-O2', 64, ['-O2'] + CE), ('-O0', 64, ['-O0'] + CE), ('undefined behaviour trapping', 64, ['-O1'] + UB + CE)]}


# what a user may tell the compiler: (probability, choices)
OPTIONS = [
    (1.0, ['-O0', '-O1', '-O2', '-O2', '-O3', '-O3', '-Os', '-Og', '-Ofast', '-Oz']),
    (1.0, ['-std=c++20', '-std=gnu++20', '-std=c++23', '-std=gnu++23']),
    (.55, ['-march=x86-64-v2', '-march=x86-64-v3', '-march=x86-64-v4', '-march=native', '-mssse3', '-mavx', '-mavx2', '-mtune=atom', '-mtune=znver4']),
    (.3, ['-funsigned-char', '-fsigned-char']),
    (.25, ['-flto']),
    (.5, ['-fPIC', '-fPIE -pie', '-fno-pie -no-pie', '-static', '-mcmodel=large', '-mcmodel=medium', '-fPIC -fno-plt']),
    (.2, ['-fno-strict-aliasing']), (.15, ['-fwrapv']), (.15, ['-ftrapv']), (.15, ['-ffast-math']),
    (.15, ['-fno-inline']), (.15, ['-funroll-loops']), (.15, ['-finline-limit=100000']),
    (.2, ['-fomit-frame-pointer', '-fno-omit-frame-pointer']),
    (.2, ['-fstack-protector-all', '-fstack-clash-protection']), (.2, ['-fcf-protection=full', '-fcf-protection=none']),
    (.2, ['-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=3', '-U_FORTIFY_SOURCE']),
    (.35, ['-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG -D_GLIBCXX_DEBUG_PEDANTIC', '-D_GLIBCXX_CONCEPT_CHECKS']),
    (.3, ['-DNDEBUG']), (.15, ['-mno-red-zone']), (.15, ['-fno-rtti']), (.15, ['-fno-exceptions']), (.15, ['-fshort-enums']),
    (.15, ['-g']), (.15, ['-fno-builtin']), (.3, ['-ftrivial-auto-var-init=pattern', '-ftrivial-auto-var-init=zero']),
    (.15, ['-fno-elide-constructors']), (.15, ['-fvisibility=hidden']), (.15, ['-ffunction-sections -Wl,--gc-sections']),
    (.1, ['-fno-tree-vectorize', '-ftree-vectorize']), (.1, ['-fipa-pta']), (.1, ['-fno-threadsafe-statics']), (.1, ['-flifetime-dse=1', '-fno-lifetime-dse']),
    (.1, ['-fno-delete-null-pointer-checks']), (.1, ['-fkeep-inline-functions']), (.1, ['-fno-ipa-cp', '-fno-ipa-sra', '-fno-tree-sra']), (.1, ['-mstackrealign']),
    (.1, ['-D_GLIBCXX_USE_CXX11_ABI=0']), (.1, ['-fwhole-program']), (.1, ['-fno-unsigned-char -fconserve-stack']), (.1, ['-fpermissive']), (.1, ['-pedantic-errors']),
    (.1, ['-ffp-contract=off']), (.1, ['-fno-stack-protector']), (.1, ['-Wl,-z,now -Wl,-z,relro']), (.1, ['-DUNICODE -D_UNICODE', '-D_GNU_SOURCE', '-D_POSIX_C_SOURCE=200809L']),
]


def drawn(seed, count):
    """compilations with drawn options, each of which some of them have and some have not"""
    rnd = random.Random(seed)
    cpu = open('/proc/cpuinfo').read()
    lacks = lambda o: ('v4' in o and 'avx512vl' not in cpu) or (('v3' in o or 'avx2' in o) and 'avx2' not in cpu) or ('mavx' in o and ' avx ' not in cpu) or ('ssse3' in o or 'v2' in o) and 'ssse3' not in cpu
    r = []
    # the choices of one kind are dealt out, so that few compilations have many of them
    deal = {}
    for i in range(count):
        f = []
        for j, (p, choices) in enumerate(OPTIONS):
            if rnd.random() < p:
                if not deal.get(j):
                    deal[j] = rnd.sample(choices, len(choices))
                o = deal[j].pop()
                if not lacks(o):
                    f += o.split()
        if '-fcf-protection=full' in f and '-mcmodel=large' in f:
            f.remove('-fcf-protection=full')                  # the compiler has no such combination
        r.append((' '.join(f), 'rich', f + ['-DBYTES=%d' % (i % 3)] + (['-DMILO_INTERNAL_ASM=false'] if rnd.random() < .25 else [])))
    return r


def server(width, flags):
    """lib/w32.cpp; as a program for 32-bit processors it has to do with the compiler: no C library, no C++ library's objects"""
    if width == 'rich':
        src = VERIF + '/lib/w32.cpp'
        asm = [] if '-DMILO_INTERNAL_ASM=false' in flags else [asm_obj(a) for a in asm_sources()]
        flags = ['-w', '-DHOSTED', '-DRICH', '-I' + REPO + '/src', *(ASM_DEFS if asm else []), *flags, '-Wl,-z,noexecstack']
        path = cached('\n'.join(['rich', tree_hash(src), src_hash()] + flags), lambda t: _command([CXX, *flags, src, *asm, '-o', t]))
        os.chmod(path, 0o755)
        return path
    if width == 64:
        src = VERIF + '/lib/w32.cpp'
        flags = ['-std=c++20', '-w', '-DHOSTED', '-DRICH', '-DBYTES=0', '-I' + REPO + '/src', '-DMILO_INTERNAL_ASM=false', *flags]
        path = cached('\n'.join(['w64', tree_hash(src), src_hash()] + flags), lambda t: _command([CXX, *flags, src, '-o', t]))
        os.chmod(path, 0o755)
        return path
    return w32(flags)


def w32(flags):
    src = VERIF + '/lib/w32.cpp'
    inc = BUILD + '/w32-include'
    if not os.path.exists(inc + '/gnu/stubs-32.h'):
        os.makedirs(inc + '/gnu', exist_ok=True)
        open(inc + '/gnu/stubs-32.h', 'w').close()
    cfg = sh([CXX, '-print-multiarch'])[1].strip()
    ver = sh([CXX, '-dumpversion'])[1].strip().split('.')[0]
    flags = ['-m32', '-std=c++20', '-w', '-fno-pic', '-no-pie', '-static', '-nostdlib', '-fno-exceptions', '-fno-asynchronous-unwind-tables', '-fno-threadsafe-statics', '-fno-stack-protector', '-fno-builtin', '-Wl,--unresolved-symbols=ignore-all',
             '-I' + inc, '-I/usr/include/%s/c++/%s' % (cfg, ver), '-I/usr/include/' + cfg, '-I' + REPO + '/src', '-DMILO_INTERNAL_ASM=false', *flags]
    path = cached('\n'.join(['w32', tree_hash(src), src_hash()] + flags), lambda t: _command([CXX, *flags, src, '-o', t]))
    os.chmod(path, 0o755)
    return path


def canary():
    """does the toolchain work, and the library compile at all?"""
    with tempfile.TemporaryDirectory() as d:
        p = d + '/canary.cpp'
        with open(p, 'w') as f:
            f.write('#include <milo/primitive/hash/sha.h>\n#include <vector>\nint main() { return 0; }\n')
        rc, out = sh([CXX, *BASE, '-O0', *ASM_DEFS, '-c', p, '-o', d + '/canary.o'])
        return rc == 0, out
