"""Just enough AES and GF(2^128) to choose IVs that put the GCM counter where we want it.
Nothing here judges the library: the specification does."""


def _sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ ((p << 1) & 0xff) ^ (0x1b if p & 0x80 else 0)
        q ^= (q << 1) & 0xff; q ^= (q << 2) & 0xff; q ^= (q << 4) & 0xff
        if q & 0x80:
            q ^= 0x09
        x = q ^ ((q << 1 | q >> 7) & 0xff) ^ ((q << 2 | q >> 6) & 0xff) ^ ((q << 3 | q >> 5) & 0xff) ^ ((q << 4 | q >> 4) & 0xff)
        s[p] = x ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    return s


S = _sbox()


def norm_key(k):
    return k[:16] if len(k) >= 16 else k + bytes([16 - len(k)]) * (16 - len(k))


def aes(key, block):
    key = norm_key(key)
    w = [list(key[4 * i:4 * i + 4]) for i in range(4)]
    r = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [S[t[1]] ^ r, S[t[2]], S[t[3]], S[t[0]]]
            r = ((r << 1) ^ (0x11b if r & 0x80 else 0)) & 0xff
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    s = [block[i] ^ w[i // 4][i % 4] for i in range(16)]
    xt = lambda a: ((a << 1) ^ (0x1b if a & 0x80 else 0)) & 0xff
    for rnd in range(1, 11):
        s = [S[b] for b in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if rnd < 10:
            n = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                t = a[0] ^ a[1] ^ a[2] ^ a[3]
                n += [a[i] ^ t ^ xt(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = n
        s = [s[i] ^ w[4 * rnd + i // 4][i % 4] for i in range(16)]
    return bytes(s)


R = 0xe1 << 120


def mul(a, b):
    z = 0
    for i in range(127, -1, -1):
        if b >> i & 1:
            z ^= a
        a = (a >> 1) ^ (R if a & 1 else 0)
    return z


def inv(a):
    r, e = 1 << 127, a
    for i in range(127):      # a^(2^128 - 2)
        e = mul(e, e)
        r = mul(r, e)
    return r


def iv_for(h, j0):
    """a 16-byte IV whose pre-counter block is j0 under hash key h"""
    hi = inv(int.from_bytes(h, "big"))
    x = mul(int.from_bytes(j0, "big"), hi) ^ 128
    return mul(x, hi).to_bytes(16, "big")


def bits(radix, n):
    """number of bits of radix^n - 1"""
    return (radix ** n - 1).bit_length()
