"""Which harness decides which property."""


def cxx(name, *sources, flavour='cov', **kw):
    return dict(name=name, sources=list(sources), flavour=flavour, **kw)


CHECKS = {
    'C01': {'cxx': [cxx('hash', 'c01_hash.cpp', 'opts.cpp@OPT=1'), cxx('huge', 'c01_huge.cpp', flavour='o2')]},
    'C02': {'cxx': [cxx('stream', 'c02_stream.cpp')]},
    'C03': {'cxx': [cxx('lifecycle', 'c03_lifecycle.cpp@PART=1', 'c03_lifecycle.cpp@PART=2', 'c03_lifecycle.cpp@PART=3')],
            'technique': 'model-based stateful testing over a pool of objects, coverage-guided'},
    'C04': {'cxx': [cxx('hmac', 'c04_hmac.cpp', 'opts.cpp@OPT=4')]},
    'C05': {'cxx': [cxx('poly', 'c05_poly.cpp', 'opts.cpp@OPT=5')]},
    'C06': {'cxx': [cxx('hkdf', 'c06_hkdf.cpp', 'opts.cpp@OPT=6'), cxx('huge', 'c06_huge.cpp@HKDF=1', flavour='o2')]},
    'C07': {'cxx': [cxx('pbkdf2', 'c07_pbkdf2.cpp', 'opts.cpp@OPT=7'), cxx('huge', 'c06_huge.cpp', flavour='o2')]},
    'C08': {'cxx': [cxx('chacha', 'c08_chacha.cpp')]},
    'C09': {'cxx': [cxx('aead', 'c09_aead.cpp')]},
    'C10': {'cxx': [cxx('auth', 'c10_auth.cpp')]},
    'C11': {'cxx': [cxx('base16', 'c11_base16.cpp'), cxx('huge', 'c11_huge.cpp@CODEC=16', flavour='o2')]},
    'C12': {'cxx': [cxx('base64', 'c12_base64.cpp'), cxx('huge', 'c11_huge.cpp@CODEC=64', flavour='o2')]},
    'C13': {'cxx': [cxx('errors', 'c13_errors.cpp')]},
    'C14': {'cxx': [cxx('backends', *['c14_backends.cpp@PART=%d' % i for i in range(5)])],
            'technique': 'differential property-based testing of call histories over all backends, coverage-guided'},
    'C15': {'cxx': [cxx('cpu', 'c15_cpu.cpp', flavour='o2'), cxx('cpu-noasm', 'c15_cpu.cpp', flavour='o2', asm=False, scale=0.3)],
            'technique': 'property-based testing on simulated CPUs: instructions of unreported features trap'},
    'C16': {'cxx': [cxx('branches', 'c37_words.cpp', flavour='o2', asm=False, libs=['@const'])], 'py': 'c16', 'technique': 'property-based generation of constexpr programs, compared with run-time evaluation and a reference'},
    'C17': {'py': 'c17', 'technique': 'property-based generation of programs over call forms and containers, against a reference'},
    'C18': {'cxx': [cxx('sizes', *['c18_sizes.cpp@PART=%d' % i for i in range(1, 6)])]},
    'C19': {'py': 'c19', 'technique': 'property-based generation of valid programs and of invalid neighbours, judged by the compiler'},
    'C25': {'py': 'c25', 'technique': 'property-based generation of literal spellings and of programs that use them'},
    'C20': {'cxx': [cxx('erase-' + f, *['c20_erase.cpp@PART=%d' % i for i in range(5)], flavour=f) for f in ('o2', 'o0', 'o1', 'os', 'o3n')],
            'technique': 'metamorphic property-based testing: equal histories with different secrets leave equal storage'},
    'C21': {'cxx': [cxx('%s%s' % (k, n), *[f'c21_memory.cpp@{m}={i}' + x for i in range(5)], flavour=f)
                    for f, n in (('cov', ''), ('asan', '-asan')) for k, m, x in (('ranges', 'RANGES', ''), ('objects', 'PART', '@SCRIPTS=1'))]},
    'C22': {'cxx': [cxx('state', *['c22_state.cpp@PART=%d' % i for i in range(5)], flavour='o2', libs=['@wrap'])],
            'technique': 'property-based testing with interposed calls: sentinel registers, flags, control words and stack; single-stepped calls'},
    'C23': {'cxx': [cxx(n, *['c23_threads.cpp@PART=%d' % i for i in range(5)], *['c23_threads.cpp@RANGES=%d' % i for i in range(1, 5)], flavour=f) for n, f in (('cores', 'o2'), ('races', 'tsan'))],
            'technique': 'property-based generation of concurrent programs, under the thread sanitizer and on real cores, against sequential execution'},
    'C24': {'py': 'c24', 'technique': 'property-based generation of multi-unit programs, against a reference'},
    'C26': {'cxx': [cxx('arguments', 'c26_app.cpp'), cxx('arguments-asan', 'c26_app.cpp', flavour='asan', scale=0.4)],
            'technique': 'property-based testing of argument lists against a model of the documentation, coverage-guided'},
    'C27': {'cxx': [cxx('expressions', 'c27_app.cpp')],
            'technique': 'property-based testing of expressions against a reference matcher, coverage-guided'},
    'C28': {'cxx': [cxx('report', 'c28_app.cpp'), cxx('big', 'c28_app_big.cpp', flavour='o2')],
            'technique': 'property-based testing with a substituted clock and counted work, coverage-guided'},
    'C30': {'cxx': [cxx('testing', 'c30_test.cpp', flavour='o2')],
            'technique': 'mutation of generated implementations: property-based fault injection into what the testing interface explores'},
    'C31': {'cxx': [cxx('verify-' + f, 'c31_verify.cpp', flavour=f, extra=['-fno-builtin-memcmp', '-fno-builtin-bcmp']) for f in ('o2', 'o1', 'o3n')],
            'technique': 'metamorphic property-based testing: single-stepped rejections of two wrong tags run the same instructions'},
    'C32': {'cxx': [cxx('path-' + f, *['c32_path.cpp@PART=%d' % i for i in range(5)], flavour=f, extra=['-fno-builtin-memcmp', '-fno-builtin-bcmp'], scale=x) for f, x in (('o2', 1.0), ('o1', 0.5), ('o3n', 0.5))],
            'technique': 'metamorphic property-based testing: single-stepped scripts with other contents of equal sizes run the same instructions'},
    'C33': {'py': 'c33', 'technique': 'generated-input search: drawn build configurations, ways of integration and consumers, configured, built, installed, linked and run; oracle: the build succeeds and the outputs equal a reference'},
    'C34': {'cxx': [cxx('alloc', *['c34_alloc.cpp@PART=%d' % i for i in (1, 2, 3)], libs=['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'])],
            'technique': 'property-based fault injection: drawn failures of allocations and of user containers, coverage-guided'},
    'C35': {'cxx': [cxx('choice', 'c35_choice.cpp', flavour='o2'), cxx('choice-noasm', 'c35_choice.cpp@NOASM=1', flavour='o2', asm=False, scale=0.1)],
            'technique': 'property-based testing on simulated CPUs: which features\' instructions execute tells the implementation in use'},
    'C36': {'cxx': [cxx('wind', *['c36_wind.cpp@PART=%d' % i for i in range(5)], flavour='o2', libs=['@wind'])],
            'technique': 'property-based testing of the assembly built for the Windows convention, entered by a caller of that convention; oracle: the convention, and the software backend'},
    'C37': {'cxx': [cxx('words', 'c37_words.cpp@WORDS=1', flavour='o2', asm=False, libs=['@w32'])],
            'technique': 'property-based testing of a program for 32-bit processors, with undefined behaviour trapping, against a reference'},
    'C38': {'cxx': [cxx('order', 'c37_words.cpp@ORDER=1', flavour='o2', asm=False, libs=['@big'])],
            'technique': 'property-based testing of programs that emulate memory of the other byte order, against a reference'},
    'C39': {'cxx': [cxx('params', 'c39_params.cpp')]},
    'C40': {'cxx': [cxx('flags', 'c37_words.cpp@FLAGS=1', flavour='o2', libs=['@flags'])],
            'technique': 'property-based testing of programs compiled with drawn options, against a reference'},
    'C29': {'py': 'c29', 'technique': 'generated-input search: drawn vector configurations, generated, compiled (also in compile-time form) and run, right and with single corruptions of vectors or implementations; oracle: reference model (hashlib and Python implementations)'},
}
NOT_CLAIMED = {}
