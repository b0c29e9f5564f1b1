#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept in one readable place; run by hand, not by the checks).
import json, os
P = 'src/milo/primitive/'
D = 'src/milo/primitive/detail/'
HASH = [D+'hash/impl.h', D+'hash/sha/sha_1_160.h', D+'hash/sha/sha_1_160_impl_sw.h', D+'hash/sha/sha_1_160_impl_hw_x86_64.h', D+'hash/sha/sha_1_160_impl_hw_x86_64.asm',
        D+'hash/sha/sha_2_256.h', D+'hash/sha/sha_2_256_impl_sw.h', D+'hash/sha/sha_2_256_impl_hw_x86_64.h', D+'hash/sha/sha_2_256_impl_hw_x86_64.asm', D+'hash/sha/sha_2_512.h', D+'hash/sha/sha_2_512_impl_sw.h']
CHACHA = [D+'cipher/impl.h', D+'cipher/chacha/chacha.h', D+'cipher/chacha/chacha_impl_sw.h', D+'cipher/chacha/chacha_impl_hw_x86_64.h', D+'cipher/chacha/chacha_impl_hw_x86_64.asm']
POLY = [D+'mac/poly/poly_1305.h', D+'mac/poly/poly_1305_impl.h', D+'mac/poly/poly_1305_impl_sw.h']
AEAD = [D+'aead/chacha/chacha_20_poly_1305.h', P+'aead/apie.h']
KDF = [D+'kdf/hkdf.h', D+'kdf/pbkdf_2.h', P+'kdf/apie.h']
CODEC = [D+'codec/base_16.h', D+'codec/base_64.h', P+'codec/apie.h']
UPD = 'src/milo/internal/update.h'
MEM = 'src/milo/internal/memory.h'
APIES = [P+g+'/apie.h' for g in ('hash','mac','kdf','cipher','aead','codec')]
out = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    M={'input':'inputs','history':'histories','configuration':'configurations','schedule':'schedules','fault':'fault_sequences','program':'programs'}
    over=[M[o] for o in over]
    out.append({'id': 'C%02d'%(len(out)+1), 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

prop('hash-conformance', 'Every SHA digest equals the FIPS 180-4 digest of the message',
     'For every message, of any length including lengths above 2^32 bits, SHA-1, SHA-224, SHA-256, SHA-384, SHA-512, SHA-512/224 and SHA-512/256 return exactly the FIPS 180-4 digest. This holds for the default algorithm and for every explicitly selected backend, whatever the byte type, alignment and splitting of the input, and a shorter digest, whether asked for in a call or by the digest size option of the type, is the leading bytes of the full one.',
     ['input', 'configuration'], 'all messages, all lengths, all seven algorithms and all their backends',
     'Test vectors sample some lengths in one call each; padding, length-counter and block-boundary mistakes show only at particular lengths, splits or above 2^32 bits.',
     HASH+[UPD, P+'hash/apie.h'],
     [('block compression, software and SHA-NI', D+'hash/sha/*_impl_*'), ('padding and length field', D+'hash/sha/sha_*.h finalize'), ('block buffering', UPD)],
     [('message size counter', 'bytes absorbed so far, encoded in the last block', D+'hash/sha/sha_2_256.h'), ('buffer', 'bytes of an incomplete block', D+'hash/sha/sha_2_256.h')])
prop('stream-equivalence', 'Splitting an input over many calls never changes any output',
     'For hashes, MACs, the cipher and the AEAD, feeding the message, associated data, plaintext or ciphertext in any number of pieces of any sizes, empty pieces included, gives the same digests, tags and bytes as one call with the whole input, and every piece of cipher output is complete when its call returns. Deriving a key in any number of parts, each call returning the next part, gives the bytes of one derivation of the total length.',
     ['input', 'history'], 'all inputs and all partitions of them into calls, for every algorithm and backend',
     'The number of partitions is exponential; the tests feed each vector whole. Errors sit at particular combinations of buffered bytes, piece size and multi-block thresholds.',
     [UPD]+HASH[:2]+CHACHA+POLY+AEAD+[D+'mac/hmac/hmac.h'],
     [('block buffering for absorb and keystream', UPD), ('AEAD phases', D+'aead/chacha/chacha_20_poly_1305.h')],
     [('partial block buffer', 'bytes pending or keystream left over', UPD)])
prop('object-lifecycle', 'Algorithm objects are independent values that can be copied and reused',
     'At any point of its use an algorithm object may be copied, moved, assigned (also to itself) or initialized again. A copy continues exactly as the original would have and neither affects the other afterwards, initializing again behaves like a fresh object, and asking for a digest several times, at any sizes, always returns the same bytes.',
     ['history'], 'all operation histories over a set of live objects of every algorithm',
     'It quantifies over histories of interleaved operations on several objects; the tests run one object through one fixed sequence.',
     APIES+[D+'mac/hmac/hmac.h', D+'mac/poly/poly_1305.h', D+'cipher/chacha/chacha.h', D+'kdf/hkdf.h', D+'kdf/pbkdf_2.h']+HASH,
     [('copy, move, assignment', 'apie classes and implementation classes'), ('finalize-once guard', P+'hash/apie.h do_finalize'), ('initialize', 'implementation classes')],
     [('finalized flags', 'whether the digest is already computed', P+'mac/apie.h')])
prop('hmac-conformance', 'HMAC equals RFC 2104 for every key and message',
     'For every key of any length (empty, shorter than, equal to and longer than the block) and every message, HMAC over each of the seven SHA functions and each backend equals RFC 2104, however the message is split, and so does HMAC over a hash whose digest is shortened by option or over a user-defined hash. A shorter tag, asked for in a call or by option, is the leading bytes of the full tag.',
     ['input', 'configuration'], 'all keys, all messages, all hash functions and backends',
     'Key handling branches on length around the block size and re-hashes long keys; tests sample few key lengths.',
     [D+'mac/hmac/hmac.h', P+'mac/apie.h']+HASH,
     [('key block preparation and ipad/opad', D+'mac/hmac/hmac.h initialize'), ('outer hash', D+'mac/hmac/hmac.h finalize')])
prop('poly1305-conformance', 'Poly1305 equals RFC 8439 for every key and message',
     'For every 32-byte one-time key and every message the Poly1305 tag equals the RFC 8439 definition computed over integers modulo 2^130-5, including inputs that make intermediate sums reach or exceed the modulus, in the default and every selectable backend and however the message is split. A shorter tag, asked for in a call or by option, is the leading bytes of the full one.',
     ['input'], 'all keys (r, s) and all messages, with the carry and final-reduction corner cases',
     'Carry and reduction mistakes occur with probability around 2^-26 to 2^-100 for random data and are missed by any fixed set of vectors not aimed at them.',
     POLY+[P+'mac/apie.h', UPD],
     [('limb multiplication and carries', D+'mac/poly/poly_1305_impl_sw.h'), ('final reduction and addition of s', D+'mac/poly/poly_1305.h')],
     [('accumulator limbs', 'partially reduced sum', D+'mac/poly/poly_1305.h')])
prop('hkdf-conformance', 'HKDF equals RFC 5869 for all inputs and output lengths',
     'For every input key material, salt and info of any lengths (empty included) and every output length up to 255 hash lengths, HKDF over each HMAC equals RFC 5869, so a shorter key is a prefix of a longer one and successive derivations return successive parts of it.',
     ['input', 'configuration'], 'all ikm, salt, info, lengths 0 to 255*HashLen, all hash functions and backends',
     'Block counter, last partial block and empty-salt handling matter at specific lengths only.',
     [D+'kdf/hkdf.h', P+'kdf/apie.h', D+'mac/hmac/hmac.h'],
     [('extract', D+'kdf/hkdf.h initialize'), ('expand with block counter', D+'kdf/hkdf.h derive')])
prop('pbkdf2-conformance', 'PBKDF2 equals RFC 8018 for all inputs, counts and lengths',
     'For every password, salt, iteration count of at least one and output length, PBKDF2 over each HMAC equals RFC 8018, so a shorter key is a prefix of a longer one and successive derivations return successive parts of it.',
     ['input', 'configuration'], 'all passwords, salts, iteration counts and output lengths, all hash functions and backends',
     'Block index encoding beyond 255 blocks, last partial block and iteration-count edges are not covered by sample vectors.',
     [D+'kdf/pbkdf_2.h', P+'kdf/apie.h', D+'mac/hmac/hmac.h'],
     [('block function F', D+'kdf/pbkdf_2.h derive'), ('block index encoding', D+'kdf/pbkdf_2.h')])
prop('chacha20-conformance', 'ChaCha20 output equals RFC 8439 and decryption inverts it',
     'For every key, every 16-byte initialization vector (block counter and nonce) and every plaintext length, the ciphertext equals RFC 8439 ChaCha20 with the 32-bit block counter wrapping on its own, in every backend, also when the output buffer is the input buffer. Decryption returns the plaintext, whatever pieces either side uses.',
     ['input', 'history', 'configuration'], 'all keys, counters and nonces, all lengths and splits, all backends, separate or identical buffers',
     'Vectorised backends produce many blocks at once, so counter lanes, tails and wrap-around only show at special lengths and counters.',
     CHACHA+[UPD, P+'cipher/apie.h'],
     [('block function per backend', D+'cipher/chacha/'), ('keystream buffering and counter advance', UPD)],
     [('block counter', 'next keystream block', D+'cipher/chacha/chacha.h'), ('keystream buffer', 'unused keystream bytes', D+'cipher/chacha/chacha.h')])
prop('aead-conformance', 'ChaCha20-Poly1305 equals RFC 8439 for all inputs',
     'For every key, nonce, associated data and plaintext, each possibly empty and each supplied in any pieces, encryption yields the RFC 8439 ciphertext and tag. Decryption of the ciphertext returns the plaintext and the same tag, in every backend combination.',
     ['input', 'history', 'configuration'], 'all keys, nonces, associated data and plaintext of all lengths and splits',
     'Padding between associated data and ciphertext, the length block and the one-time key derivation interact with every pair of lengths; vectors cover few pairs.',
     AEAD+CHACHA+POLY+[UPD],
     [('padding and length block', D+'aead/chacha/chacha_20_poly_1305.h'), ('one-time key', D+'aead/chacha/chacha_20_poly_1305.h initialize'), ('phase tracking', P+'aead/apie.h')],
     [('aad and ciphertext sizes', 'byte counts put in the length block', D+'aead/chacha/chacha_20_poly_1305.h')])
prop('aead-authenticity', 'AEAD verification accepts the genuine tag and nothing else',
     'Verification succeeds exactly when the presented tag is the full correct tag. Any change of one or more bits in key, nonce, associated data, ciphertext or tag, any move of bytes between associated data and ciphertext, and any shortened, extended or empty tag is reported as a verification failure by every decrypting and verifying interface.',
     ['input', 'fault'], 'all messages and all modifications of them',
     'The space of forgeries is unbounded; tests only try the valid tag and rarely a corrupted one.',
     AEAD+[MEM, 'src/milo/error.h'],
     [('tag comparison', MEM+' memory_match'), ('verify interfaces', P+'aead/apie.h')])
prop('base16-codec', 'Base-16 encoding is RFC 4648 and decoding accepts exactly its language',
     'Encoding any bytes gives two hexadecimal digits per byte, and decoding that text gives the bytes back. Decoding accepts digits of either case, reading an odd number of digits as if a zero digit came first, and any text containing a character that is not a hexadecimal digit is reported with the base-16 decode error and never yields more bytes than the digit pairs before that character.',
     ['input'], 'all byte strings, all character strings including characters above 0x7f',
     'Invalid text is unbounded; tests use valid vectors and few malformed ones, and reject lists cannot be complete by example.',
     [D+'codec/base_16.h', P+'codec/apie.h'],
     [('digit tables', D+'codec/base_16.h'), ('error reporting', P+'codec/apie.h')])
prop('base64-codec', 'Base-64 encoding is RFC 4648 and decoding accepts exactly its language',
     'Encoding any bytes gives the padded RFC 4648 base-64 text, and decoding that text gives the bytes back. Any text that is not a whole number of valid, correctly padded groups is reported with the base-64 decode error and never yields more bytes than its valid leading groups.',
     ['input'], 'all byte strings, all character strings',
     'Invalid alphabets, padding in wrong places and partial groups form an unbounded set that vectors only sample.',
     [D+'codec/base_64.h', P+'codec/apie.h'],
     [('alphabet tables', D+'codec/base_64.h'), ('padding handling', D+'codec/base_64.h')])
prop('error-channel', 'Errors arrive by reference or by exception, consistently',
     'An operation that can fail reports the same failure whether an error argument is given, in which case it never throws, or omitted, in which case it throws exactly that error value. A successful operation never throws and leaves the given error cleared whatever it held before, and error values convert, compare and clear consistently.',
     ['input', 'history'], 'all valid and invalid inputs of every fallible operation and every interface form, with any earlier error value',
     'It relates two interface families over all inputs; a wrong exception specification or a stale error only shows in one form for some inputs.',
     ['src/milo/error.h', P+'codec/apie.h', P+'aead/apie.h']+CODEC[:2],
     [('error by reference', 'src/milo/error.h'), ('throwing overloads', P+'codec/apie.h, '+P+'aead/apie.h')])
prop('backend-equivalence', 'All backends of an algorithm compute the same function',
     'For each algorithm the default, software and hardware backends, including a backend enforced through the option types, return identical outputs for identical histories of calls, and keystream or digest state may be advanced by calls of any sizes without the backends diverging.',
     ['input', 'history', 'configuration'], 'all call histories, all pairs of backends',
     'The differential test in the tree compares a fixed schedule; vector backends switch code paths on sizes, remaining buffer and alignment.',
     HASH+CHACHA+POLY+['src/milo/internal/impl.h', 'src/milo/option.h', P+'aead/apie.h'],
     [('backend proxy and options', 'src/milo/internal/impl.h, src/milo/internal/option.h'), ('vector kernels', D+'cipher/chacha/chacha_impl_hw_x86_64.asm and '+D+'hash/sha/*.asm')])
prop('cpu-dispatch', 'Results do not depend on the CPU and only supported code runs',
     'For every combination of reported CPU features, and in a build without assembly, the default algorithms return the same results. Hardware code is executed only when the CPU and the operating system report every feature it needs, and software code is used otherwise.',
     ['configuration'], 'all CPU feature reports, with and without assembly',
     'Tests run on one CPU, so feature detection is exercised with one value.',
     ['src/milo/internal/arch/x86_64.h', 'src/milo/internal/arch.h', 'src/milo/internal/impl.h', 'src/milo/internal/arch/x86_64/cpuid.asm'],
     [('feature detection', 'src/milo/internal/arch/x86_64.h'), ('backend choice', 'src/milo/internal/impl.h and chooser structs')],
     [('feature flags', 'computed once at start', 'src/milo/internal/arch/x86_64.h')])
prop('constexpr-runtime', 'Compile-time evaluation gives the same result as run time',
     'Every algorithm evaluated in a constant expression, through any of its interfaces and with any splitting, truncation and error input, is accepted by the compiler and yields the value that run-time evaluation yields.',
     ['program', 'input', 'history'], 'all programs evaluating an algorithm in a constant expression',
     'Constant evaluation takes separate branches and rejects undefined behaviour; the tests evaluate only their vectors in one call form.',
     ['src/milo/internal/impl.h', MEM, 'src/milo/internal/update.h']+APIES,
     [('compile-time branches', 'src/milo/internal/impl.h, '+MEM)])
prop('call-forms', 'All call forms of an operation agree for all byte containers',
     'The pointer, container, return-by-value and one-call forms of each operation accept any contiguous container of char, signed char or unsigned char, standard or user-defined, fixed or resizable, view or owner, and return the same bytes and sizes for the same inputs.',
     ['program', 'input', 'configuration'], 'all operations, call forms, byte types and container types, all inputs',
     'Templates are compiled only when used: a form nobody instantiates in a test can fail to compile or behave differently for one container or byte type.',
     APIES+['src/milo/meta.h', 'src/milo/container.h', 'src/milo/internal/utility.h'],
     [('byte and container concepts', 'src/milo/meta.h'), ('one-call functions', P+'*/apie.h')])
prop('output-sizing', 'Outputs have the documented size and nothing else is written',
     'A resizable output ends up with exactly the size of the result, a fixed-size output receives at most what fits of a digest, tag or derived key, and the returned size is the number of bytes produced. Bytes of the output outside the reported result, and bytes around the output buffer, are never changed.',
     ['input'], 'all operations, all requested sizes, all prior sizes and capacities of output containers',
     'Sizes above, below and equal to the natural size, for each form and container, are a product space that tests do not enumerate.',
     APIES+[MEM, 'src/milo/internal/utility.h'],
     [('resize', 'src/milo/internal/utility.h resize'), ('size limits', 'digest and derive functions')])
prop('static-rejection', 'Calls that cannot be right are rejected at compile time',
     'A program asking for a fixed-size digest larger than the algorithm gives, passing non-byte data, writing into read-only output, or using an algorithm of the wrong kind does not compile, while the neighbouring correct program does.',
     ['program'], 'all generated programs around the documented compile-time limits',
     'A compiled test suite cannot contain programs that must not compile.',
     APIES+['src/milo/meta.h'],
     [('concepts', 'src/milo/meta.h'), ('requires clauses', P+'*/apie.h')])
prop('key-erasure', 'Destroyed algorithm objects leave no secret in their storage',
     'After an algorithm object that held key material, message data, keystream or chaining state is destroyed, whatever its history, its storage no longer contains any of these secrets.',
     ['history', 'input'], 'all algorithms, backends and histories up to destruction, at any optimisation level',
     'Tests look at results only; dead-store elimination of the erasing code depends on optimisation and history.',
     [MEM, D+'mac/hmac/hmac.h', D+'mac/poly/poly_1305.h', D+'cipher/chacha/chacha.h', D+'kdf/hkdf.h', D+'kdf/pbkdf_2.h']+AEAD[:1]+HASH,
     [('erase on destruction', MEM+' memory_erase and destructors')],
     [('key blocks, state, buffers', 'secrets held between calls', 'implementation classes')])
prop('memory-bounds', 'Operations touch only the memory they are given',
     'For every size and alignment, operations read only the given input ranges, write only the given output range and never modify inputs, also when a range ends or starts at an inaccessible page, and no operation performs an undefined access or arithmetic.',
     ['input', 'history'], 'all inputs, sizes, alignments and splits for every algorithm and backend',
     'An over-read by a vector load is invisible unless the neighbouring page is unmapped, and undefined behaviour is invisible without instrumentation.',
     [UPD, MEM, 'src/milo/internal/bit.h', 'src/milo/internal/endian.h']+HASH+CHACHA+POLY+CODEC,
     [('vector loads and stores', D+'**/*.asm'), ('byte-wise memory helpers', MEM)])
prop('register-preservation', 'Hardware code leaves the caller state intact',
     'Calling any operation preserves the callee-saved registers, the stack pointer, the direction flag and the floating-point control settings, and leaves the floating-point and vector unit usable, whatever the sizes and backend.',
     ['input', 'configuration'], 'all operations, backends and sizes',
     'A clobbered register only hurts when the surrounding compiled code happens to keep a value in it.',
     [D+'cipher/chacha/chacha_impl_hw_x86_64.asm', D+'hash/sha/sha_1_160_impl_hw_x86_64.asm', D+'hash/sha/sha_2_256_impl_hw_x86_64.asm', 'src/milo/internal/arch/x86_64/cpuid.asm', 'src/milo/internal/arch/x86_64/abi.asm'],
     [('assembly prologues and epilogues', D+'**/*.asm')])
prop('thread-independence', 'Separate objects may be used from separate threads',
     'Threads using different algorithm objects, also while sharing read-only inputs or asking one shared finished object for its digest through a const view of it, obtain the results of sequential execution without data races.',
     ['schedule'], 'all interleavings of operations of several threads on separate objects',
     'Tests are single threaded; shared hidden state shows only under concurrency.',
     ['src/milo/internal/impl.h', 'src/milo/internal/arch/x86_64.h']+HASH+CHACHA+POLY+AEAD,
     [('no shared mutable state', 'implementation classes'), ('feature flags', 'src/milo/internal/arch/x86_64.h')])
prop('embedding', 'The headers work in any program structure',
     'Any public header can be included alone, in any order, any number of times and in any number of translation units of one program, with or without assembly, and the algorithms give right results also during static initialization of those units.',
     ['program', 'configuration'], 'all sets, orders and repetitions of public headers over several translation units',
     'Every test program is a single translation unit with one fixed include list.',
     ['src/milo/internal/arch/x86_64.h', 'src/milo/literal.h', 'src/milo/internal.h', 'src/milo/def.h']+[P+'hash/sha.h', P+'aead/chacha.h'],
     [('inline definitions', 'headers under src/milo'), ('static feature flags', 'src/milo/internal/arch/x86_64.h')])
prop('literals', 'Literals denote exactly the written bytes',
     'The byte and character literals, owning and viewing, denote exactly the bytes between the quotes, including zero bytes and bytes above 0x7f, and the base-16 and base-64 literals denote the decoded bytes, in constant expressions where allowed and at run time. A malformed encoded literal is an error and never a value.',
     ['program', 'input'], 'all string literals',
     'Tests only use literals holding their own vectors.',
     ['src/milo/literal.h', 'src/milo/container.h']+CODEC,
     [('literal operators', 'src/milo/literal.h')])
prop('app-parameters', 'The application reads parameters by place, name and value as documented',
     'An option or parameter counts only between its command and the next command, in any order, and only when its whole name matches; unknown ones are ignored. A missing required parameter ends in an error message and a non-zero exit status, absent optional ones take their defaults, and no argument list makes the application crash.',
     ['input'], 'all argument lists',
     'No test runs the application at all.',
     ['app/include/milo/app/app.h', 'app/include/milo/app/parameter.h', 'app/include/milo/app/run.h', 'app/include/milo/app/command/benchmark.h'],
     [('argument scanner', 'app/include/milo/app/app.h'), ('parameter groups', 'app/include/milo/app/parameter.h')])
prop('app-patterns', 'A benchmark expression selects exactly the names it matches',
     'An expression selects exactly those listed benchmarks whose whole name matches it when each star stands for any run of characters, possibly empty; list prints each available name once, and the advanced option only adds names.',
     ['input'], 'all expressions over the listed names',
     'No test runs the application; glob mistakes need repeated stars or repeated substrings.',
     ['app/include/milo/app/pattern.h', 'app/include/milo/app/command/benchmark.h'],
     [('star matching', 'app/include/milo/app/pattern.h')])
prop('app-report', 'The benchmark report is valid JSON with consistent metrics',
     'For every accepted argument list the output is one valid JSON document that repeats the configuration in effect and, per selected benchmark, has positive metrics consistent with each other: throughput times duration gives the bytes per call, and cycles follow from clock and duration, without overflow. Verbose output additionally reproduces the arguments exactly.',
     ['input'], 'all accepted argument lists, any sizes, repeats and clock values',
     'No test runs the application or relates its metrics to each other.',
     ['app/include/milo/app/command/benchmark.h', 'app/include/milo/app/type.h', 'app/include/milo/app/run.h'],
     [('metrics', 'app/include/milo/app/command/benchmark.h invoke'), ('JSON writer', 'app/include/milo/app/type.h')])
prop('codegen-faithful', 'A generated test program passes exactly when its vectors hold',
     'For every configuration of vectors the test generator produces a program that compiles and passes when all vectors are right and fails, at run time and in its compile-time form, when any single vector has a wrong expected value or any listed implementation yields another value for one, and regenerating from the committed configurations reproduces the committed tests.',
     ['input', 'fault'], 'all vector sets and all single corruptions of them, for every test scheme',
     'The generated tests cannot tell whether they would fail for a wrong library.',
     ['tool/codegen/main.py', 'tool/codegen/src/cpp/lang.py', 'tool/codegen/src/cpp/milo.py']+['tool/codegen/src/cpp/test/primitive/'+f for f in ('hash.py','mac.py','kdf_hkdf.py','kdf_pbkdf_2.py','cipher_encrypt.py','cipher_decrypt.py','aead_encrypt.py','aead_decrypt.py','codec_encode.py','codec_decode.py')]+[P+g+'/test.h' for g in ('hash','mac','kdf','cipher','aead','codec')],
     [('vector rendering', 'tool/codegen/src/cpp/lang.py'), ('result checks', P+'*/test.h')])
prop('testing-interface', 'The testing interface tells agreement from disagreement',
     'A test of one operation against an expected value is true exactly when the operation yields those bytes in that size, and never throws. A differential test is true for implementations that agree and false for implementations, the user\'s own included, that differ for any byte, piece size, splitting, key, output length or direction it explores, whichever of the two is wrong; it explores single bytes, the whole input at once, many sizes in between and nearly every input position.',
     ['input', 'fault'], 'all expected values, and all single deviations of either implementation within what is explored',
     'Tests run it only where it must be true.',
     [P+g+'/test.h' for g in ('hash','mac','kdf','cipher','aead','codec')],
     [('differential tests', P+'{hash,mac,kdf,cipher}/test.h differential'), ('value tests', P+'*/test.h')])
prop('verification-time', 'Rejecting a wrong tag reveals nothing about the right one',
     'Verification of an AEAD tag executes the same instructions for any two wrong tags of the same size, wherever and however much they differ from the right one, in every verifying form, throwing or not, for every byte and container type and on every backend.',
     ['input', 'configuration'], 'all pairs of wrong tags of equal size, all verifying forms',
     'Functional tests cannot see how a right verdict was reached.',
     [MEM, P+'aead/apie.h'],
     [('comparison without early exit', MEM+' memory_match'), ('verify and decrypt forms', P+'aead/apie.h')])
prop('secret-independent-path', 'Which instructions run depends on sizes, never on contents',
     'For every history of calls to a hash, MAC, key derivation, cipher or AEAD object, the sequence of instructions executed depends only on the calls and their sizes (and the iteration count): two histories that differ only in the contents of keys, nonces, salts, associated data and messages execute the same instructions, on every backend and in every build type.',
     ['history', 'configuration'], 'all pairs of histories of equal sizes with other contents, all algorithms and backends',
     'Functional tests cannot see branches on secrets; they may be taken for rare contents only.',
     HASH+CHACHA+POLY+AEAD+[D+'mac/hmac/hmac.h', UPD, MEM],
     [('branch-free arithmetic', 'implementation classes'), ('buffering by size', UPD)])
prop('integration', 'Every documented way of building and integrating the library works',
     'For every combination of the documented build options, build types and generators, the library configures, builds and installs, and a consumer that adds it as a subdirectory, fetches it or finds it installed, as a program, a shared or static library or several targets, builds, links, runs and gets right results, wherever the sources lie.',
     ['configuration', 'program'], 'all combinations of options, build types, generators, ways of integration and kinds of consumers',
     'The tests are built in one configuration inside the source tree and nothing is ever installed.',
     ['CMakeLists.txt', 'app/CMakeLists.txt', 'doc/integration.md'],
     [('options, sources, include directories, definitions, installation', 'CMakeLists.txt')])
prop('allocation', 'Memory is taken only through the output, and running out of it is survivable',
     'Operations allocate nothing themselves: with outputs that need no growth (pointers, arrays, views) no memory is taken at all, by construction, updates and copies of algorithm objects neither. When a resizable output of the user cannot grow, its exception reaches the caller unchanged from every call form, nothing leaks, and the call can be repeated on the same object as if the failed one had not been made: neither keystream, derived key nor digest advances.',
     ['input', 'fault'], 'all operations and call forms, all points at which growth of an output can fail',
     'Tests never run out of memory and never look at allocations.',
     APIES+['src/milo/internal/utility.h', 'src/milo/container.h'],
     [('resize before processing', P+'*/apie.h'), ('noexcept conditions', P+'*/apie.h')])
prop('implementation-choice', 'The implementation in use is the one the options and the processor call for',
     'For every combination of preferred and enforced implementations, in either order and together with other options, directly or below HMAC, HKDF, PBKDF2 and the AEAD: the enforced one is used; otherwise the preferred one when the processor and operating system have what it needs; otherwise the fastest one for which they do, so that acceleration is never silently lost; the software one when none does, or the build is without assembly. What other types in the same program ask for does not matter.',
     ['input', 'configuration'], 'all option combinations on all feature sets of processors and operating systems',
     'Results do not show which implementation ran, and tests run on one processor.',
     ['src/milo/internal/impl.h', 'src/milo/internal/arch/x86_64.h', 'src/milo/option.h']+HASH+CHACHA,
     [('choice and options', 'src/milo/internal/impl.h impl_proxy'), ('feature detection', 'src/milo/internal/arch/x86_64.h')])
prop('windows-assembly', 'The assembly built for Windows obeys that convention and computes the same',
     'Built for the Windows x64 calling convention, every assembly function, for all inputs, takes its parameters where that convention puts them, preserves what it must (rbx, rbp, rdi, rsi, r12 to r15, xmm6 to xmm15, stack, direction flag, control words), keeps nothing below the stack pointer, and gives the results of the software implementation.',
     ['input', 'history', 'schedule'], 'all histories of calls with any register contents, and interruption at any instruction',
     'Tests run on one system, where the other convention is never assembled.',
     [D+'cipher/chacha/chacha_impl_hw_x86_64.asm', D+'hash/sha/sha_1_160_impl_hw_x86_64.asm', D+'hash/sha/sha_2_256_impl_hw_x86_64.asm', 'src/milo/internal/arch/x86_64/abi.asm', 'src/milo/internal/arch/x86_64/cpuid.asm', 'src/milo/internal/arch/x86_64/xgetbv.asm'],
     [('conventions', 'src/milo/internal/arch/x86_64/abi.asm'), ('prologues and epilogues', '*_impl_hw_x86_64.asm')])
prop('word-size', 'On processors with 32-bit sizes everything computes the same',
     'Compiled for a processor whose size_t has 32 bits, with any optimization, every algorithm class gives for all inputs, splittings and output sizes the results it gives elsewhere, also for messages, associated data and texts of more than 4 GiB processed in parts, the codecs state the right sizes for every input and output that can exist there, and nothing outside of inputs and outputs is touched and no undefined operation executed.',
     ['input', 'history', 'configuration'], 'all inputs and splittings, totals beyond the range of size_t, all buffer sizes to 2 GiB',
     'Tests are compiled for one word size and use short inputs.',
     HASH+CHACHA+POLY+AEAD+[D+'mac/hmac.h', D+'kdf/hkdf.h', D+'kdf/pbkdf_2.h', UPD, MEM, D+'codec/base_16.h', D+'codec/base_64.h', 'src/milo/internal/arch/x86_32.h'],
     [('counters of 64 bits', 'implementation classes'), ('sizes of encodings', D+'codec/base_64.h encode_size, decode_size')])
prop('byte-order', 'Results do not depend on the byte order of the processor',
     'On a processor that stores the most significant byte first, of 64 or 32 bits, every algorithm gives for all inputs, splittings and output sizes the results it gives elsewhere, and executes no undefined operation.',
     ['input', 'history', 'configuration'], 'all inputs and splittings of all algorithm classes, in both byte orders and word sizes',
     'Tests run on processors of one byte order, where reading in native order cannot be told from reading in the right one.',
     HASH+CHACHA+POLY+AEAD+[D+'mac/hmac.h', D+'kdf/hkdf.h', D+'kdf/pbkdf_2.h', UPD, MEM, 'src/milo/internal/endian.h', D+'codec/base_16.h', D+'codec/base_64.h'],
     [('loads and stores by byte order', MEM), ('byte order', 'src/milo/internal/endian.h')])
prop('parameter-sizes', 'Keys of other sizes are padded or cut, and sizes are as documented',
     'Where a key has a documented size, bytes beyond it are ignored and missing bytes count as zero, for Poly1305, ChaCha20 and the AEAD alike, and so for initialization vectors, whatever the object was used for before; nothing beyond the given bytes is read. The documented sizes of every algorithm (digest, block, key, vector, encoding ratio) are those of the standards or of the digest size option, in the class and in its wrapper alike.',
     ['input', 'history', 'configuration'], 'all key and vector sizes and contents, all call forms and histories, all algorithms and digest size options',
     'Tests use parameters of the documented size only.',
     CHACHA+POLY+AEAD+APIES+[MEM],
     [('padding and cutting', MEM+' memory_init'), ('sizes', P+'*/apie.h')])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in out: f.write(json.dumps(p)+'\n')
print(len(out))
