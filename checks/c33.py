"""C33: drawn configurations of the documented build options, ways of integration and kinds of consumer;
the consumer's program prints bytes that are compared with a reference."""
import glob, json, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from lib import build as B, model as M, pypbt

RULE = 'a configuration of the documented options, a way of integrating the library (subdirectory, FetchContent, installed and found), a build type, a kind of consumer (program, shared library, static library, two targets) and a program drawn over the algorithms, literals and headers of the interface; built and run; non-trivial: distinct configuration and program'
USES = ['hash', 'hmac', 'poly', 'hkdf', 'pbkdf2', 'chacha', 'aead', 'codec', 'literal']
HASHES = ['sha_1_160', 'sha_2_224', 'sha_2_256', 'sha_2_384', 'sha_2_512', 'sha_2_512_224', 'sha_2_512_256']
ENV = {k: v for k, v in os.environ.items() if k not in ('CFLAGS', 'CXXFLAGS', 'CPPFLAGS', 'LDFLAGS', 'MAKEFLAGS', 'CMAKE_GENERATOR', 'CMAKE_PREFIX_PATH', 'CC', 'CXX')}
ENV.update(CC='gcc', CXX='g++')


def lit(b):
    return '"' + ''.join('\\%03o' % c for c in b) + '"'


def use(s, name):
    """(headers, statements filling std::vector<unsigned char> o, expected)"""
    kind = s.pick(USES)
    data = lambda n: bytes((17 * i + s.below(256)) & 255 for i in range(n))
    m, k = data(s.below(200)), data(32)
    H = s.pick(HASHES)
    P = 'milo::primitive::'
    v = lambda b: 'std::string(%s, %d)' % (lit(b), len(b))
    mac = P + 'mac::hmac<' + P + 'hash::%s<>>' % H
    if kind == 'hash':
        return ['hash/apie', 'hash/sha'], 'o = %shash::digest<%shash::%s<>, V>(%s, %d);' % (P, P, H, v(m), len(M.hash(H, m))), M.hash(H, m)
    if kind == 'hmac':
        return ['hash/sha', 'mac/apie', 'mac/hmac'], 'o = %smac::digest<%s, V>(%s, %s, %d);' % (P, mac, v(k), v(m), len(M.hash(H, m))), M.hmac(H, k, m)
    if kind == 'poly':
        return ['mac/apie', 'mac/poly'], 'o = %smac::digest<%smac::poly_1305<>, V>(%s, %s, 16);' % (P, P, v(k), v(m)), M.poly1305(k, m)
    if kind == 'hkdf':
        n = s.below(90)
        return ['hash/sha', 'mac/hmac', 'kdf/apie', 'kdf/hkdf'], 'o = %skdf::derive<%skdf::hkdf<%s>, V>(%s, %s, %s, %d);' % (P, P, mac, v(k), v(m), v(m), n), M.hkdf(H, k, m, m, n)
    if kind == 'pbkdf2':
        n = s.below(90)
        return ['hash/sha', 'mac/hmac', 'kdf/apie', 'kdf/pbkdf'], 'o = %skdf::derive<%skdf::pbkdf_2<%s>, V>(%s, %s, 3, %d);' % (P, P, mac, v(k), v(m), n), M.pbkdf2(H, k, m, 3, n)
    if kind == 'chacha':
        return ['cipher/apie', 'cipher/chacha'], 'o = %scipher::encrypt<%scipher::chacha_20<>, V>(%s, %s, %s);' % (P, P, v(k), v(k[:16]), v(m)), M.chacha20(k, k[:16], m)
    if kind == 'aead':
        ct, tag = M.aead(k, k[:12], m[:20], m)
        return ['aead/apie', 'aead/chacha'], '%saead::apie<%saead::chacha_20_poly_1305<>> a(%s, %s); a.aad(%s); o = a.encrypt<V>(%s); V t = a.digest<V>(16); o.insert(o.end(), t.begin(), t.end());' % (P, P, v(k), v(k[:12]), v(m[:20]), v(m)), ct + tag
    if kind == 'literal':
        op, text, want = s.pick([('base_16', m.hex().encode(), m), ('base_64', M.base64e(m), m), ('b', m, m)])
        return ['../literal'], 'using namespace milo::literal; auto l = %s_%s; o.assign(l.begin(), l.end());' % (lit(text), op), want
    return ['codec/apie', 'codec/base'], 'o = %scodec::encode<%scodec::base_64<>, V>(%s); V d = %scodec::decode<%scodec::base_64<>, V>(o); if (d.size() != %d) o.clear();' % (P, P, v(m), P, P, len(m)), M.base64e(m)


class Config:
    def __init__(self, s):
        self.way = s.pick(['subdirectory', 'fetch', 'install'])
        self.options = {'MILO_ASM': s.pick(['ON', None, 'OFF'])}
        self.app = s.below(6) == 5
        self.test = s.pick([None, 'OFF', 'ON'])
        self.type = s.pick(['', 'Debug', 'Release', 'RelWithDebInfo', 'MinSizeRel'])
        self.generator = s.pick(['Ninja', 'Unix Makefiles'])
        self.kind = s.pick(['program', 'shared', 'static', 'two'])
        self.pic = s.below(2)
        self.spaces = s.below(6) == 5
        self.lang = s.pick(['CXX', 'C CXX'])
        self.std = s.pick([None, 20, 23])
        self.units = []
        self.includes = [[], []]
        for i in range(1 + s.below(4)):
            self.units.append((i % 2 if self.kind == 'two' else 0,) + use(s, 'f%d' % i))
        # besides, the headers of the interface, in a drawn order
        hs = sorted(os.path.relpath(x, B.REPO + '/src') for x in glob.glob(B.REPO + '/src/milo/*.h') + glob.glob(B.REPO + '/src/milo/primitive/*/*.h'))
        hs = [h for h in hs if '/detail/' not in h and not h.endswith('/test.h')]
        self.headers = [hs.pop(s.below(len(hs))) for _ in range(s.pick([0, 1, 3, len(hs)]))]
        o = dict(self.options)
        o['MILO_APP'] = 'ON' if self.app else s.pick([None, 'OFF'])
        o['MILO_TEST'] = self.test
        self.options = {k: v for k, v in o.items() if v}
        self.text = json.dumps([self.way, self.options, self.type, self.generator, self.kind, self.pic, self.spaces, self.lang, self.std, self.headers, [u[2] for u in self.units]])
        self.desc = '%s %s %s %s consumer=%s%s%s%s' % (self.way, ' '.join('-D%s=%s' % x for x in sorted(self.options.items())), self.type or 'no type', self.generator, self.kind, ' pic' if self.pic else '', ' path with spaces' if self.spaces else '', ' C++%s' % self.std if self.std else '')

    def source(self, part):
        us = [(i, u) for i, u in enumerate(self.units) if u[0] == part]
        t = ''.join('#include <%s>\n' % h for h in self.headers) + '#include <string>\n#include <vector>\n' + ''.join('#include <%s.h>\n' % os.path.normpath('milo/primitive/' + h) for _, u in us for h in u[1])
        t += 'using V = std::vector<unsigned char>;\n'
        for i, u in us:
            t += 'V f%d() { V o; %s return o; }\n' % (i, u[2])
        return t

    def main(self):
        t = '#include <cstdio>\n#include <vector>\nusing V = std::vector<unsigned char>;\n'
        t += ''.join('V f%d();\n' % i for i in range(len(self.units)))
        t += 'int main() {\n' + ''.join(' for (unsigned c: f%d()) printf("%%02x", c); printf("\\n");\n' % i for i in range(len(self.units))) + '}\n'
        return t

    def cmake(self, milo, prefix):
        o = ''.join('set(%s %s CACHE BOOL "" FORCE)\n' % x for x in sorted(self.options.items())) if self.way != 'install' else ''
        get = {'subdirectory': 'add_subdirectory("%s" milo-build)\n' % milo,
               'fetch': 'include(FetchContent)\nFetchContent_Declare(milo SOURCE_DIR "%s")\nFetchContent_MakeAvailable(milo)\n' % milo,
               'install': 'find_package(milo CONFIG REQUIRED)\n'}[self.way]
        pic = 'set(CMAKE_POSITION_INDEPENDENT_CODE ON)\n' if self.pic or self.kind == 'shared' else ''
        if self.std:
            pic += 'set(CMAKE_CXX_STANDARD %d)\n' % self.std
        body = {'program': 'add_executable(prog main.cpp part0.cpp)\ntarget_link_libraries(prog PRIVATE milo)\n',
                'shared': 'add_library(part SHARED part0.cpp)\ntarget_link_libraries(part PRIVATE milo)\nadd_executable(prog main.cpp)\ntarget_link_libraries(prog PRIVATE part)\n',
                'static': 'add_library(part STATIC part0.cpp)\ntarget_link_libraries(part PUBLIC milo)\nadd_executable(prog main.cpp)\ntarget_link_libraries(prog PRIVATE part)\n',
                'two': 'add_library(one STATIC part0.cpp)\ntarget_link_libraries(one PRIVATE milo)\nadd_executable(prog main.cpp part1.cpp)\ntarget_link_libraries(prog PRIVATE milo one)\n'}[self.kind]
        return 'cmake_minimum_required(VERSION 3.23)\nproject(consumer LANGUAGES %s)\n%s%s%s%s' % (self.lang, pic, o, get, body)


NASM_SPACES = 'fatal: more than one input file specified'


class Trouble(Exception):
    pass


def step(cmd, what, timeout=600):
    # the machine may be short of something for a moment: only a repeated failure counts
    for i in range(2):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV)
        except subprocess.TimeoutExpired:
            continue
        if p.returncode == 0:
            return p.stdout.decode('utf-8', 'replace')
    out = p.stdout.decode('utf-8', 'replace')
    if NASM_SPACES in out:
        raise Trouble(NASM_SPACES)
    l = [x for x in out.splitlines() if 'error' in x.lower() or 'undefined' in x] or out.splitlines()[-3:]
    raise Trouble('%s fails: %s' % (what, ' | '.join(l[:3])))


def source_copy(tmp, spaces):
    """the sources as a user gets them (tracked or new files, no build output), at a drawn place"""
    d = tmp + ('/milo source' if spaces else '/milo')
    if not os.path.isdir(d):
        shutil.copytree(B.REPO, d, ignore=lambda p, names: [n for n in names if n.startswith(('.git', '_')) or n == '__pycache__'])
    return d


def execute(tmp, name, c):
    d = '%s/%s' % (tmp, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        milo = source_copy(d, True) if c.spaces else B.REPO
        if c.way == 'install':
            o = ['-D%s=%s' % x for x in c.options.items()] + (['-DCMAKE_POSITION_INDEPENDENT_CODE=ON'] if c.pic else [])
            step(['cmake', '-S', milo, '-B', d + '/mb', '-G', c.generator, '-DCMAKE_BUILD_TYPE=' + c.type, '-DCMAKE_INSTALL_PREFIX=' + d + '/prefix', *o], 'configuring')
            step(['cmake', '--build', d + '/mb', '-j', '4'], 'building')
            step(['cmake', '--install', d + '/mb'], 'installing')
        os.makedirs(d + '/c')
        for f, t in [('main.cpp', c.main()), ('part0.cpp', c.source(0)), ('part1.cpp', c.source(1)), ('CMakeLists.txt', c.cmake(milo, d + '/prefix'))]:
            open(d + '/c/' + f, 'w').write(t)
        step(['cmake', '-S', d + '/c', '-B', d + '/cb', '-G', c.generator, '-DCMAKE_BUILD_TYPE=' + c.type, '-DCMAKE_PREFIX_PATH=' + d + '/prefix', '-DFETCHCONTENT_FULLY_DISCONNECTED=OFF'], 'configuring the consumer')
        step(['cmake', '--build', d + '/cb', '-j', '4'], 'building the consumer')
        out = step([d + '/cb/prog'], 'the consumer', 60).split('\n')
        for i, u in enumerate(c.units):
            if out[i] != u[3].hex():
                raise Trouble('%s yields %s, expected %s' % (u[2], out[i], u[3].hex()))
        if c.app:
            app = [x for x in (d + '/mb/app/milo', d + '/cb/milo-build/app/milo', d + '/cb/_deps/milo-build/app/milo') if os.path.exists(x)]
            if not app:
                raise Trouble('the application is not built')
            step([app[0], 'version'], 'the application', 60)
        return ''
    except Trouble as e:
        return str(e).replace(d, '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def is_known(c, t):
    return t == NASM_SPACES and c.spaces and c.options.get('MILO_ASM') != 'OFF'


def run(r):
    total = 60 if r.tier == 'quick' else 1000
    labels, seen, samples = {}, set(), []

    def one(i):
        s = pypbt.Src(pypbt.seeded('c33', r.seed, i))
        c = Config(s)
        return s.log, c, execute(r.tmp, 'p%d' % i, c)
    with ThreadPoolExecutor(max(2, B.JOBS * 3 // 4)) as ex:
        for log, c, t in ex.map(one, range(total)):
            seen.add(pypbt.fingerprint([c.text]))
            for l in (c.way, c.kind, c.generator, 'asm ' + c.options.get('MILO_ASM', 'default'), 'app' if c.app else 'no app', 'spaces' if c.spaces else 'no spaces'):
                labels[l] = labels.get(l, 0) + 1
            if len(samples) < 6:
                samples.append(c.desc)
            if 'spaces-asm' in r.known and is_known(c, t):
                r.known_hits['spaces-asm'] = r.known_hits.get('spaces-asm', 0) + 1
                continue
            if t:
                ex.shutdown(wait=False, cancel_futures=True)

                def fails(x):
                    q = Config(pypbt.Src(forced=x))
                    t = execute(r.tmp, 'shrink', q)
                    return bool(t) and not is_known(q, t)
                best = pypbt.shrink(log, fails, budget_s=120, budget_n=40) if fails(log) else log
                q = Config(pypbt.Src(forced=best))
                r.violation('%s: %s' % (q.desc, execute(r.tmp, 'last', q) or t), 'property C33\nchoices %s\n# %s\n' % (json.dumps(best), q.desc))
    r.count('configurations', total, len(seen), RULE, samples, labels)


def replay(r, path):
    d = dict(l.split(' ', 1) for l in open(path).read().splitlines() if l.startswith('choices'))
    t = execute(r.tmp, 'replay', Config(pypbt.Src(forced=json.loads(d['choices']))))
    print(t or 'holds')
    return 1 if t else 0
