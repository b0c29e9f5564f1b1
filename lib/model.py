"""Reference results for generated programs (hashlib where it has the algorithm, plain Python
arithmetic for the RFC 8439 ones)."""
import base64, hashlib, hmac as _hmac, struct

HASHES = ['sha_1_160', 'sha_2_224', 'sha_2_256', 'sha_2_384', 'sha_2_512', 'sha_2_512_224', 'sha_2_512_256']
PY = {'sha_1_160': 'sha1', 'sha_2_224': 'sha224', 'sha_2_256': 'sha256', 'sha_2_384': 'sha384', 'sha_2_512': 'sha512',
      'sha_2_512_224': 'sha512_224', 'sha_2_512_256': 'sha512_256'}
DSIZE = {'sha_1_160': 20, 'sha_2_224': 28, 'sha_2_256': 32, 'sha_2_384': 48, 'sha_2_512': 64, 'sha_2_512_224': 28, 'sha_2_512_256': 32}
BSIZE = {'sha_1_160': 64, 'sha_2_224': 64, 'sha_2_256': 64, 'sha_2_384': 128, 'sha_2_512': 128, 'sha_2_512_224': 128, 'sha_2_512_256': 128}


# an algorithm is named 'sha_2_256', or 'sha_2_256/16' when its digests are cut to 16 bytes;
# a MAC over it 'sha_2_256/16:10' when its tags are cut to 10
def _split(a):
    a, _, t = a.partition(':')
    a, _, n = a.partition('/')
    return a, int(n or DSIZE[a]), int(t or n or DSIZE[a])


def dsize(a):
    return _split(a)[1]


def msize(a):
    return _split(a)[2]


def bsize(a):
    return BSIZE[_split(a)[0]]


def hash(a, m):
    b, n, _ = _split(a)
    return hashlib.new(PY[b], m).digest()[:n]


def hmac(a, k, m):
    b = bsize(a)
    if len(k) > b:
        k = hash(a, k)
    k = k.ljust(b, b'\0')
    return hash(a, bytes(x ^ 0x5c for x in k) + hash(a, bytes(x ^ 0x36 for x in k) + m))[:msize(a)]


def hkdf(a, ikm, salt, info, n):
    prk = hmac(a, salt, ikm)
    r, t, i = b'', b'', 1
    while len(r) < n:
        t = hmac(a, prk, t + info + bytes([i & 255]))
        r += t
        i += 1
    return r[:n]


def pbkdf2(a, p, s, it, n):
    r, i = b'', 1
    while len(r) < n:
        u = hmac(a, p, s + struct.pack('>I', i))
        t = int.from_bytes(u, 'big')
        for _ in range(it - 1):
            u = hmac(a, p, u)
            t ^= int.from_bytes(u, 'big')
        r += t.to_bytes(len(u), 'big')
        i += 1
    return r[:n]


def poly1305(k, m):
    r = int.from_bytes(k[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(k[16:32], 'little')
    a = 0
    for i in range(0, len(m), 16):
        a = (a + int.from_bytes(m[i:i + 16] + b'\1', 'little')) * r % ((1 << 130) - 5)
    return ((a + s) & ((1 << 128) - 1)).to_bytes(16, 'little')


def _block(key, counter, nonce):
    st = list(struct.unpack('<4I', b'expand 32-byte k')) + list(struct.unpack('<8I', key)) + [counter & 0xffffffff] + list(struct.unpack('<3I', nonce))
    x = st[:]

    def q(a, b, c, d):
        for s, (i, j, k) in zip((16, 12, 8, 7), ((a, b, d), (c, d, b), (a, b, d), (c, d, b))):
            x[i] = (x[i] + x[j]) & 0xffffffff
            v = x[k] ^ x[i]
            x[k] = ((v << s) | (v >> (32 - s))) & 0xffffffff
    for _ in range(10):
        q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15)
        q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14)
    return struct.pack('<16I', *[(a + b) & 0xffffffff for a, b in zip(x, st)])


def chacha20(key, iv16, m):
    """iv: little endian counter, then the nonce"""
    c = int.from_bytes(iv16[:4], 'little')
    ks = b''.join(_block(key, c + i, iv16[4:]) for i in range((len(m) + 63) // 64))
    return bytes(a ^ b for a, b in zip(m, ks))


def aead(key, nonce, aad, m):
    ct = chacha20(key, b'\1\0\0\0' + nonce, m)
    return ct, aead_tag(key, nonce, aad, ct)


def aead_tag(key, nonce, aad, ct):
    def pad(x):
        return x + b'\0' * (-len(x) % 16)
    return poly1305(_block(key, 0, nonce)[:32], pad(aad) + pad(ct) + struct.pack('<QQ', len(aad), len(ct)))


def base16(m):
    return m.hex().encode()


def base64e(m):
    return base64.b64encode(m)


def unbase16(t):
    """bytes, or None; an odd number of digits starts with an implied zero"""
    if any(c not in b'0123456789abcdefABCDEF' for c in t):
        return None
    s = t.decode()
    return bytes.fromhex('0' + s if len(s) % 2 else s)


def unbase64(t):
    import re
    if len(t) % 4 or not re.fullmatch(rb'[A-Za-z0-9+/]*={0,2}', t, re.S):
        return None
    return base64.b64decode(t)
