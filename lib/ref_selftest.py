"""Cross-checks the C++ reference implementations against Python's hashlib/hmac/base64 and bignum code."""
import base64, hashlib, hmac, random, subprocess, sys

def poly(key, m):
    r = int.from_bytes(key[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(key[16:], 'little')
    a = 0
    for i in range(0, len(m), 16):
        a = (a + int.from_bytes(m[i:i + 16] + b'\1', 'little')) * r % (2 ** 130 - 5)
    return ((a + s) % 2 ** 128).to_bytes(16, 'little')

def qr(x, a, b, c, d):
    M = 0xffffffff
    def rl(v, n): return ((v << n) | (v >> (32 - n))) & M
    x[a] = (x[a] + x[b]) & M; x[d] = rl(x[d] ^ x[a], 16)
    x[c] = (x[c] + x[d]) & M; x[b] = rl(x[b] ^ x[c], 12)
    x[a] = (x[a] + x[b]) & M; x[d] = rl(x[d] ^ x[a], 8)
    x[c] = (x[c] + x[d]) & M; x[b] = rl(x[b] ^ x[c], 7)

def chacha(key, nonce, ctr, m):
    out = b''
    for i in range(0, len(m), 64):
        w = lambda b: [int.from_bytes(b[j:j + 4], 'little') for j in range(0, len(b), 4)]
        s = w(b'expand 32-byte k') + w(key) + [(ctr + i // 64) & 0xffffffff] + w(nonce)
        x = list(s)
        for _ in range(10):
            for q in ((0,4,8,12),(1,5,9,13),(2,6,10,14),(3,7,11,15),(0,5,10,15),(1,6,11,12),(2,7,8,13),(3,4,9,14)):
                qr(x, *q)
        ks = b''.join(((p + q) & 0xffffffff).to_bytes(4, 'little') for p, q in zip(x, s))
        out += bytes(p ^ q for p, q in zip(m[i:i + 64], ks))
    return out

def main(exe):
    rnd = random.Random(20240601)
    names = ["sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256"]
    avail = [n for n in names if n in hashlib.algorithms_available]
    lines, want = [], []
    def rb(n):
        m = rnd.randrange(4)
        return bytes([255]) * n if m == 0 else rnd.randbytes(n)
    h = lambda b: b.hex() or '-'
    for i in range(1500):
        n = rnd.choice([0, 1, 15, 16, 17, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, rnd.randrange(700)])
        a = rnd.choice(avail); m = rb(n)
        k = rb(rnd.choice([0, 1, 20, 32, 63, 64, 65, 127, 128, 129, 200]))
        lines.append(f"hash {a} {h(m)}"); want.append(hashlib.new(a, m).hexdigest())
        lines.append(f"hmac {a} {h(k)} {h(m)}"); want.append(hmac.new(k, m, a).hexdigest())
        pk = rb(32)
        lines.append(f"poly {h(pk)} {h(m)}"); want.append(poly(pk, m).hex())
        if i < 300:
            nonce = rb(12); ctr = rnd.choice([0, 1, 0xffffffff, 0xfffffffe, rnd.randrange(2 ** 32)])
            lines.append(f"chacha {h(pk)} {h(nonce)} {ctr} {h(m)}"); want.append(chacha(pk, nonce, ctr, m).hex() or '-')
            s = rb(rnd.randrange(40)); it = rnd.randrange(1, 5); L = rnd.randrange(1, 150)
            lines.append(f"pbkdf2 {a} {h(k)} {h(s)} {it} {L}"); want.append(hashlib.pbkdf2_hmac(a, k, s, it, L).hex())
            # hkdf in terms of hmac
            hl = hashlib.new(a).digest_size
            prk = hmac.new(s or b'\0' * hl, k, a).digest(); t = b''; okm = b''; c = 1
            while len(okm) < L:
                t = hmac.new(prk, t + m + bytes([c]), a).digest(); okm += t; c += 1
            lines.append(f"hkdf {a} {h(k)} {h(s)} {h(m)} {L}"); want.append(okm[:L].hex())
            otk = chacha(pk, nonce, 0, b'\0' * 64)[:32]
            pad = lambda b: b + b'\0' * (-len(b) % 16)
            lines.append(f"aead {h(pk)} {h(nonce)} {h(s)} {h(m)}")
            want.append(poly(otk, pad(s) + pad(m) + len(s).to_bytes(8, 'little') + len(m).to_bytes(8, 'little')).hex())
        lines.append(f"b64 {h(m)}"); want.append(base64.b64encode(m).decode() or '-')
        lines.append(f"b16 {h(m)}"); want.append(m.hex() or '-')
    got = subprocess.run([exe], input='\n'.join(lines) + '\n', text=True, capture_output=True, check=True).stdout.split()
    bad = [(l, w, g) for l, w, g in zip(lines, want, got) if w != g]
    if len(got) != len(want) or bad:
        print("reference self-test FAILED", len(got), len(want), bad[:2]); return 1
    print(f"reference self-test: {len(want)} vectors agree with Python ({','.join(avail)})")
    return 0

sys.exit(main(sys.argv[1]))
