"""One function per property: which models are checked, which behaviours are replayed into the library.
The judgement is always spec/Trace.tla's."""
import itertools
import json
from lib.run import Case
from lib import gf

CHECKS = {}


def prop(pid, level="model_checking"):
    def deco(f):
        f.level = level
        CHECKS[pid] = f
        return f
    return deco


# ------------------------------------------------------------------ data
def hx(b):
    return bytes(b).hex()


class Data:
    def __init__(self, rng):
        self.r = rng

    def bytes(self, n):
        k = self.r.random()
        if k < 0.70 or n == 0:
            return bytes(self.r.getrandbits(8) for _ in range(n))
        if k < 0.78:
            return bytes(n)
        if k < 0.86:
            return b"\xff" * n
        if k < 0.93:
            b = bytearray(n); b[self.r.randrange(n)] = 1 << self.r.randrange(8); return bytes(b)
        return bytes([self.r.randrange(256)]) * n

    def rnd(self, n):
        return bytes(self.r.getrandbits(8) for _ in range(n))

    def keylen(self):
        return self.r.choice([16] * 6 + [0, 1, 2, 7, 8, 9, 15, 15, 17, 24, 32, 33, 40])

    def key(self, n=None):
        return self.bytes(self.keylen() if n is None else n)

    def seed(self):
        return self.r.randrange(1, 2 ** 31 - 1)

    def text(self, radix, n):
        al = "0123456789abcdefghijklmnopqrstuvwxyz"[:radix]
        k = self.r.random()
        if k < 0.75:
            return "".join(self.r.choice(al) for _ in range(n))
        if k < 0.83:
            return al[0] * n
        if k < 0.91:
            return al[-1] * n
        return (al[-1] + al[0] * n)[:n]


def sx(s):
    return s.encode().hex()


def pick(rng, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else rng.sample(xs, n)


# ---------------------------------------------------------- P01 block ciphers
def cipher_history(d, h, algs, tag, dirs=None, nblk=3, dummy=None):
    """a CipherHist behaviour on concrete algorithms"""
    lines = ["seed t=%d" % d.seed(), "poison b=%d" % d.r.choice([0, 0, 0xAA, 0x01, 0xFF])]
    alg = {1: d.r.choice(algs), 2: d.r.choice(algs)}
    for i, (op, o) in enumerate(h):
        a = alg[o]
        if op in ("key", "rekey"):
            x = " dummy=%d" % (d.r.randrange(5) if dummy is None else dummy) if a.startswith("wbsm4") else ""
            lines.append("ciph o=k%d alg=%s key=%s%s%s" % (o, a, hx(d.key()), x, " re=1" if op == "rekey" else ""))
        else:
            if dirs and op not in dirs:
                op = dirs[0]
            lines.append("blk o=k%d dir=%s in=%s%s" % (o, op, hx(d.bytes(16 * nblk)), " alias=1" if d.r.random() < 0.25 else ""))
    return Case(tag, lines)


@prop("P01")
def p01(c):
    d = Data(c.rng)
    c.model("Kat"); c.model("CipherLaws")
    f = c.model("CipherLaws", "CipherHist", {"Depth": c.q(6, 7)})
    cases = []
    for i, h in enumerate(pick(c.rng, c.histories(f), c.q(120, 1500))):
        cases.append(cipher_history(d, h, ["aes", "sm4"], "h%d" % i))
    # every key length, and many keys
    for alg in ("aes", "sm4"):
        for n in list(range(0, 41)) + [48, 64, 100]:
            k = d.rnd(n)
            cases.append(Case("len-%s-%d" % (alg, n), ["poison b=%d" % (0xA5 if n % 2 else 0x5A), "ciph o=k alg=%s key=%s" % (alg, hx(k)),
                              "blk o=k dir=e in=%s" % hx(d.bytes(64)), "blk o=k dir=d in=%s" % hx(d.bytes(64))]))
        for i in range(c.q(60, 600)):
            cases.append(Case("key-%s-%d" % (alg, i), ["ciph o=k alg=%s key=%s" % (alg, hx(d.bytes(16))),
                              "blk o=k dir=e in=%s" % hx(d.bytes(96)), "blk o=k dir=d in=%s" % hx(d.bytes(96)),
                              "blk o=k dir=%s in=%s alias=1" % ("ed"[i % 2], hx(d.bytes(16)))]))
    c.run(cases)


# ------------------------------------------------ P02..P04 white-box ciphers
@prop("P02")
def p02(c):
    d = Data(c.rng)
    c.model("WbModel", consts={"Rounds": c.q(2, 3)}); c.model("Kat")
    f = c.model("CipherLaws", "CipherHist", {"Depth": 6})
    cases = []
    # many random tables, a few blocks each: an error in the encodings may show with few tables only
    for i in range(c.q(150, 800)):
        l = ["seed t=%d" % d.seed()]
        for j in range(4):
            l += ["ciph o=k%d alg=%s dummy=%d key=%s" % (j, ['wbsm4', 'wbsm4d'][(i + j) % 2], (i + j) % 5, hx(d.rnd(16))), "blk o=k%d in=%s" % (j, hx(d.rnd(32)))]
        cases.append(Case("tables-%d" % i, l))
    for dummy in range(5):
        for alg in ("wbsm4", "wbsm4d"):
            for i in range(c.q(3, 20)):
                n = [16, 16, d.keylen()][i % 3]
                cases.append(Case("t-%s-%d-%d" % (alg, dummy, i), ["seed t=%d" % d.seed(), "poison b=%d" % (i * 85 % 256),
                    "ciph o=k alg=%s dummy=%d key=%s" % (alg, dummy, hx(d.bytes(n))),
                    "blk o=k dir=e in=%s" % hx(d.bytes(16 * c.q(20, 60))), "blk o=k dir=e in=%s alias=1" % hx(d.bytes(48))]))
    # an encryption and a decryption table of the same key undo each other
    for i in range(c.q(6, 40)):
        k = hx(d.key()); x = d.bytes(48)
        cases.append(Case("pair-%d" % i, ["seed t=%d" % d.seed(), "ciph o=e alg=wbsm4 dummy=%d key=%s" % (c.rng.randrange(5), k),
                     "ciph o=d alg=wbsm4d dummy=%d key=%s" % (c.rng.randrange(5), k),
                     "blk o=e in=%s" % hx(x), "blk o=d in=%s" % hx(x), "blk o=e in=%s" % hx(x)]))
    for n in list(range(0, 17)) + [17, 31, 32, 40]:
        cases.append(Case("len-%d" % n, ["seed t=%d" % d.seed(), "poison b=%d" % (0xA5 if n % 2 else 0x5A),
                     "ciph o=k alg=%s dummy=%d key=%s" % (["wbsm4", "wbsm4d"][n % 2], n % 3, hx(d.rnd(n))), "blk o=k in=%s" % hx(d.bytes(32))]))
    # many dummy rounds: counts that do not fit in few bits
    for i, n in enumerate([8, 15, 16, 31, 33, 64, 97, 127, 128, 129, 255, 256, 257, 300] + ([600, 1024, 2049] if c.thorough else [])):
        cases.append(Case("many-%d" % n, ["seed t=%d" % d.seed(), "poison b=%d" % (0xA5 if i % 2 else 0x5A),
                     "ciph o=k alg=%s dummy=%d key=%s" % (["wbsm4", "wbsm4d"][i % 2], n, hx(d.rnd(16))), "blk o=k in=%s" % hx(d.bytes(32)), "blk o=k in=%s alias=1" % hx(d.bytes(16))]))
    for i, h in enumerate(pick(c.rng, c.histories(f), c.q(10, 100))):
        cases.append(cipher_history(d, h, ["wbsm4", "wbsm4d"], "h%d" % i, dirs="e"))
    # the modes built on the tables
    for i in range(c.q(8, 60)):
        k, iv = hx(d.key()), hx(d.bytes(16)); n = c.rng.choice([0, 5, 16, 31, 40])
        cases.append(Case("mode-%d" % i, ["seed t=%d" % d.seed(), "ciph o=e alg=wbsm4 dummy=%d key=%s" % (i % 5, k), "ciph o=d alg=wbsm4d dummy=%d key=%s" % (i % 3, k),
                     "cbc o=e dir=e in=%s iv=%s" % (hx(d.bytes(n)), iv), "cbc o=d dir=d in=%s iv=%s" % (hx(d.bytes(32)), iv),
                     "gcm_init o=g c=e kind=gcm", "gcm_iv o=g iv=%s" % hx(d.bytes(12)), "gcm_data o=g in=%s" % hx(d.bytes(40)), "gcm_fin o=g"]))
    c.run(cases)


@prop("P03")
def p03(c):
    d = Data(c.rng)
    c.model("WbModel"); c.model("Kat")
    f = c.model("CipherLaws", "CipherHist", {"Depth": 6})
    cases = []
    # many random tables, a few blocks each: an error in the encodings may show with few tables only
    for i in range(c.q(150, 800)):
        l = ["seed t=%d" % d.seed()]
        for j in range(4):
            l += ["ciph o=k%d alg=%s key=%s" % (j, ['wbaes'][(i + j) % 1], hx(d.rnd(16))), "blk o=k%d in=%s" % (j, hx(d.rnd(32)))]
        cases.append(Case("tables-%d" % i, l))
    for i in range(c.q(24, 150)):
        n = [16, 16, d.keylen()][i % 3]
        cases.append(Case("t-%d" % i, ["seed t=%d" % d.seed(), "poison b=%d" % (i * 85 % 256), "ciph o=k alg=wbaes key=%s" % hx(d.bytes(n)),
                     "blk o=k in=%s" % hx(d.bytes(16 * c.q(30, 80))), "blk o=k in=%s alias=1" % hx(d.bytes(48))]))
    for n in list(range(0, 41)):
        cases.append(Case("len-%d" % n, ["seed t=%d" % d.seed(), "poison b=%d" % (0xA5 if n % 2 else 0x5A),
                     "ciph o=k alg=wbaes key=%s" % hx(d.rnd(n)), "blk o=k in=%s" % hx(d.bytes(32))]))
    for i, h in enumerate(pick(c.rng, c.histories(f), c.q(16, 100))):
        cases.append(cipher_history(d, h, ["wbaes", "aes"], "h%d" % i, dirs="e"))
    for i in range(c.q(8, 60)):
        k, iv = hx(d.key()), hx(d.bytes(16)); n = c.rng.choice([0, 5, 16, 31, 40])
        cases.append(Case("mode-%d" % i, ["seed t=%d" % d.seed(), "ciph o=e alg=wbaes key=%s" % k,
                     "cbc o=e dir=e in=%s iv=%s" % (hx(d.bytes(n)), iv),
                     "gcm_init o=g c=e kind=gcm", "gcm_iv o=g iv=%s" % hx(d.bytes(12)), "gcm_data o=g in=%s" % hx(d.bytes(40)), "gcm_fin o=g"]))
    c.run(cases)


@prop("P04")
def p04(c):
    d = Data(c.rng)
    c.model("WbModel"); c.model("Kat")
    f = c.model("CipherLaws", "CipherHist", {"Depth": 6})
    cases = []
    # many random tables, a few blocks each: an error in the encodings may show with few tables only
    for i in range(c.q(250, 1500)):
        l = ["seed t=%d" % d.seed()]
        for j in range(4):
            l += ["ciph o=k%d alg=%s key=%s" % (j, ['sewbsm4', 'sewbsm4d'][(i + j) % 2], hx(d.rnd(16))), "blk o=k%d in=%s" % (j, hx(d.rnd(32)))]
        cases.append(Case("tables-%d" % i, l))
    for alg in ("sewbsm4", "sewbsm4d"):
        for i in range(c.q(8, 80)):
            n = [16, 16, d.keylen()][i % 3]
            cases.append(Case("t-%s-%d" % (alg, i), ["seed t=%d" % d.seed(), "poison b=%d" % (i * 85 % 256), "ciph o=k alg=%s key=%s" % (alg, hx(d.bytes(n))),
                         "blk o=k in=%s" % hx(d.bytes(16 * c.q(30, 80))), "blk o=k in=%s alias=1" % hx(d.bytes(48))]))
        for n in list(range(0, 17)) + [17, 32, 40]:
            cases.append(Case("len-%s-%d" % (alg, n), ["seed t=%d" % d.seed(), "poison b=%d" % (0xA5 if n % 2 else 0x5A),
                         "ciph o=k alg=%s key=%s" % (alg, hx(d.rnd(n))), "blk o=k in=%s" % hx(d.bytes(32))]))
    for i in range(c.q(6, 40)):
        k = hx(d.key()); x = d.bytes(48)
        cases.append(Case("pair-%d" % i, ["seed t=%d" % d.seed(), "ciph o=e alg=sewbsm4 key=%s" % k, "ciph o=d alg=sewbsm4d key=%s" % k,
                     "blk o=e in=%s" % hx(x), "blk o=d in=%s" % hx(x), "blk o=e in=%s" % hx(x)]))
    for i, h in enumerate(pick(c.rng, c.histories(f), c.q(12, 100))):
        cases.append(cipher_history(d, h, ["sewbsm4", "sewbsm4d"], "h%d" % i, dirs="e"))
    c.run(cases)


# ------------------------------------------------------------------ P05 CBC
@prop("P05")
def p05(c):
    d = Data(c.rng)
    c.model("CbcModel", consts={"MaxLen": c.q(5, 6)}); c.model("Kat")
    cases = []
    algs = ["aes", "sm4", "add"]
    new = lambda a: "ciph o=k alg=%s key=%s" % (a, hx(d.key(16 if a == "add" else None)))
    msg = lambda n: d.bytes(n)

    def padlike(n):
        """a message whose end looks like padding, complete or not"""
        b = bytearray(d.rnd(n)); k = c.rng.randrange(1, 17); m = c.rng.randrange(1, k + 1)
        for i in range(min(m, n)):
            b[n - 1 - i] = k
        return bytes(b)
    # every length, both directions, in place or not, generous and tight capacities
    for a in algs:
        for n in range(0, c.q(50, 100)):
            l = ["poison b=%d" % (n * 37 % 256), new(a)]
            iv = hx(d.bytes(16)); m = msg(n)
            up = (n + 15) // 16 * 16
            for al in (0, 1):
                l.append("cbc o=k dir=e in=%s iv=%s alias=%d cap=%d" % (hx(m), iv, al, up + (17 if (n + al) % 3 == 0 else 0)))
            l.append("cbcrt o=k in=%s iv=%s" % (hx(m), iv))
            l.append("cbcrt o=k in=%s iv=%s" % (hx(padlike(n)), iv))
            if n > 0:
                l.append("cbc o=k dir=e in=%s iv=%s cap=%d" % (hx(m), iv, c.rng.choice([0, up - 1, up - 16, n - 1, n if n < up else up - 1])))
            for al in (0, 1):
                l.append("cbc o=k dir=d in=%s iv=%s alias=%d" % (hx(d.bytes(n)), hx(d.bytes(16)), al))
            if n % 16 == 0:
                l.append("cbc o=k dir=d in=%s iv=%s cap=%d" % (hx(d.rnd(n)), iv, n + c.rng.randrange(1, 40)))
                if n:
                    l.append("cbc o=k dir=d in=%s iv=%s cap=%d" % (hx(d.rnd(n)), iv, c.rng.choice([0, n - 1, n - 16])))
            cases.append(Case("n-%s-%d" % (a, n), l))
    # decryptions that end in padding of every shape: encrypt a crafted plaintext with the library first
    for a in algs:
        for k in range(0, 18):
            l = [new(a)]
            for m in sorted({k, max(k - 1, 0), 1, min(k, 16)}):
                b = bytearray(d.rnd(32))
                for i in range(m):
                    b[31 - i] = k
                l.append("cbc o=k dir=e in=%s iv=%s" % (hx(b), hx(d.bytes(16))))
                l.append("cbcrt o=k in=%s iv=%s" % (hx(b), hx(d.bytes(16))))
            cases.append(Case("pad-%s-%d" % (a, k), l))
    # the white-box front ends and the generic mode with every cipher
    for i in range(c.q(10, 60)):
        k = hx(d.key()); n = c.rng.choice([0, 1, 15, 16, 17, 31, 32, 33, 48]); iv = hx(d.bytes(16)); m = hx(d.bytes(n))
        cases.append(Case("wb-%d" % i, ["seed t=%d" % d.seed(), "ciph o=e alg=wbsm4 dummy=%d key=%s" % (i % 3, k), "ciph o=d alg=wbsm4d dummy=%d key=%s" % (i % 2, k),
                     "ciph o=w alg=wbaes key=%s" % k, "cbc o=e dir=e in=%s iv=%s" % (m, iv), "cbc o=d dir=d in=%s iv=%s" % (hx(d.bytes(n // 16 * 16 + 16)), iv),
                     "cbcrt o=e o2=d in=%s iv=%s" % (m, iv), "cbc o=w dir=e in=%s iv=%s" % (m, iv), "cbc o=w dir=e in=%s iv=%s cap=%d" % (m, iv, (n + 15) // 16 * 16 - 1 if n else 0),
                     "cbc o=d dir=d in=%s iv=%s cap=31" % (hx(d.bytes(32)), iv),
                     "cbc o=d dir=d alias=1 in=%s iv=%s" % (hx(d.bytes(n // 16 * 16 + 48)), iv), "cbc o=e dir=e alias=1 in=%s iv=%s" % (m, iv), "cbc o=w dir=e alias=1 in=%s iv=%s" % (m, iv)]))
    for a in ("aes", "sm4"):
        for n in (0, 1, 16, 20, 32, 47, 200):
            cases.append(Case("gen-%s-%d" % (a, n), [new(a) + " wrap=1", "cbc o=k dir=e in=%s iv=%s" % (hx(d.bytes(n)), hx(d.bytes(16))),
                         "cbc o=k dir=e alias=1 in=%s iv=%s" % (hx(d.bytes(n)), hx(d.bytes(16))),
                         "cbc o=k dir=d in=%s iv=%s" % (hx(d.bytes(n)), hx(d.bytes(16))), "cbc o=k dir=d in=%s iv=%s alias=1" % (hx(d.bytes(n)), hx(d.bytes(16)))]))
    # long
    for a in ("aes", "sm4"):
        for n in (c.q([1000, 4096], [1000, 4095, 4096, 4097, 20000])):
            cases.append(Case("long-%s-%d" % (a, n), [new(a), "cbc o=k dir=e in=%s iv=%s" % (hx(d.rnd(n)), hx(d.bytes(16))),
                         "cbcrt o=k in=%s iv=%s" % (hx(d.rnd(n)), hx(d.bytes(16)))]))
    c.run(cases)
    cbc_known(c)


def cbc_known(c):
    """the recorded finding: is it still there?"""
    from lib import run as R
    for k in c.known_list:
        import re
        m = re.search(r"message=([0-9a-f]+)", k)
        if not m or c.violation:
            continue
        t = R.run_driver(c.exe(), [Case("known", ["ciph o=k alg=aes key=000102030405060708090a0b0c0d0e0f",
                         "cbcrt o=k in=%s iv=000102030405060708090a0b0c0d0e0f" % m.group(1)])], c.work, "known")
        ev = [json.loads(l) for l in open(t)]
        last = ev[-1]
        if last["op"] == "cbcrt" and last["out"] != last["in"]:
            c.known.append(k)


# ------------------------------------------------------------------ P06.. GCM
class Gcm:
    """concretises GcmModel histories"""

    def __init__(self, d):
        self.d = d

    def alen(self, n):      # model length (block 2) -> bytes
        r = self.d.r
        return {0: 0, 1: r.choice([1, 7, 15, 12, 3]), 2: r.choice([16, 32, 16]), 3: r.choice([17, 20, 31, 24]),
                4: r.choice([32, 48, 64]), 5: r.choice([33, 40, 47, 63])}[n]

    def iv(self):
        return hx(self.d.bytes(self.d.r.choice([12] * 5 + [1, 4, 7, 8, 11, 13, 15, 16, 17, 20, 31, 32, 33, 48, 60, 64, 100])))

    def history(self, h, objs, mode=None, par=False):
        r, out, dirs = self.d.r, [], {}
        for op, cx, n in h:
            o = objs[cx]
            if op == "iv":
                dirs[cx] = r.choice("eed") if mode is None else mode[cx] if isinstance(mode, dict) else mode
                out.append("gcm_iv o=%s iv=%s" % (o, self.iv()))
            elif op == "aad":
                out.append("gcm_aad o=%s aad=%s" % (o, hx(self.d.bytes(self.alen(n)))))
            elif op == "data":
                m = self.alen(n)
                x = r.random()
                extra = " alias=1" if x < 0.3 else " cap=%d" % (m + r.choice([1, 5, 16, 40])) if x < 0.45 else ""
                if x > 0.93 and m > 0:
                    out.append("gcm_data o=%s dir=%s in=%s cap=%d" % (o, dirs[cx], hx(self.d.bytes(m)), r.choice([0, m - 1])))
                p = " par=1" if par and r.random() < (1 if par is True else par) else ""
                out.append("gcm_data o=%s dir=%s in=%s%s%s" % (o, dirs[cx], hx(self.d.bytes(m)), extra, p))
            else:
                out.append("gcm_fin o=%s n=%d" % (o, r.choice([16] * 4 + [12, 8, 4, 13, 1, 15])))
        return out


def gcm_key(d, alg, o="k", extra=""):
    x = " dummy=%d" % d.r.randrange(3) if alg.startswith("wbsm4") else ""
    return "ciph o=%s alg=%s key=%s%s%s" % (o, alg, hx(d.key(16 if alg in ("add", "const") else None)), x, extra)


def gcm_grid(c, d, mk, kinds, tag, par=False):
    """every IV, AAD, message and tag length class for whole messages; mk(i) -> (setup lines, object, hash key or None)"""
    cases = []
    ivs = list(range(1, 34)) + [47, 48, 49, 60, 63, 64, 65, 100, 128]
    aads = [0, 1, 4, 8, 12, 15, 16, 17, 20, 31, 32, 33, 48, 50, 64, 100]
    lens = list(range(0, 34)) + [47, 48, 49, 63, 64, 65, 80, 100, 127, 128, 129]
    n = max(len(ivs), len(lens))
    p = " par=1" if par else ""
    for i in range(n):
        ivl, al, ml = ivs[i % len(ivs)], aads[(i * 7) % len(aads)], lens[i % len(lens)]
        setup, o, _ = mk(i)
        m = d.bytes(ml); iv = d.bytes(ivl); aad = d.bytes(al)
        l = setup + ["gcm_iv o=%s iv=%s" % (o, hx(iv)), "gcm_aad o=%s aad=%s" % (o, hx(aad)), "gcm_data o=%s in=%s%s" % (o, hx(m), p), "gcm_fin o=%s n=%d" % (o, 16 - i % 16)]
        iv2 = d.bytes(ivs[(i * 5) % len(ivs)])
        l += ["gcm_iv o=%s iv=%s" % (o, hx(iv2)), "gcm_data o=%s dir=d in=%s%s" % (o, hx(d.bytes(lens[(i * 11) % len(lens)])), p), "gcm_fin o=%s n=16" % o]
        l += ["gcm_iv o=%s iv=%s" % (o, hx(d.bytes(12))), "gcm_aad o=%s aad=%s" % (o, hx(d.bytes(aads[(i * 3) % len(aads)]))),
              "gcm_data o=%s dir=d alias=1 in=%s%s" % (o, hx(d.bytes(lens[(i * 3 + 1) % len(lens)])), p), "gcm_fin o=%s n=16" % o]
        cases.append(Case("%s-grid-%d" % (tag, i), l))
    return cases


def gcm_wrap(c, d, mk, tag, par=False):
    """the 32-bit counter around its carries"""
    cases = []
    p = " par=1" if par else ""
    tops = [0xffffffff, 0xfffffffe, 0xfffffffd, 0xfffffff0, 0x00ffffff, 0x00fffffe, 0x0000ffff, 0x0000fffe, 0x000000ff, 0x000000fd, 0x7fffffff, 0x7ffffffe,
            0x01ffffff, 0x0001ffff, 0x000001ff, 0x00fffeff, 0xff00ffff, 0xfeffffff]
    for i, t in enumerate(tops):
        setup, o, h = mk(i)
        j0 = (b"\xff" * 12 if i % 3 == 0 else d.rnd(12)) + t.to_bytes(4, "big")
        iv = gf.iv_for(h, j0)
        for dr in "ed":
            setup = setup + ["gcm_iv o=%s iv=%s" % (o, hx(iv)), "gcm_aad o=%s aad=%s" % (o, hx(d.bytes(i))),
                             "gcm_data o=%s dir=%s in=%s%s" % (o, dr, hx(d.rnd(64)), p), "gcm_data o=%s dir=%s in=%s%s" % (o, dr, hx(d.rnd(21)), p), "gcm_fin o=%s n=16" % o]
        cases.append(Case("%s-wrap-%d" % (tag, i), setup))
    return cases


def zero_cases(c, d, tag, mk, par=0, top=None):
    """whole messages whose ciphertext is zero, at and around the powers of two; mk(i) -> (setup, sealing object, opening object)"""
    cases = []
    ns = [255, 256, 4095, 4096, 65535, 65536, 65537, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]
    ns = [n for n in ns if n <= (top or 1 << 25)]
    for i, n in enumerate(ns):
        setup, o, o2 = mk(i)
        iv = "iv=%s" % hx(d.bytes(12)) if i % 3 else "niv=%d" % ns[-1 - i]
        cases.append(Case("%s-%d" % (tag, n), setup + ["gcm_zero o=%s o2=%s %s na=%d n=%d par=%d" % (o, o2, iv, ns[(i * 5 + 3) % len(ns)], n + i % 3, par),
                     "gcm_zero o=%s o2=%s iv=%s na=%d n=%d chunk=%d par=%d" % (o, o2, hx(d.bytes(12)), i, n, 16 * c.rng.choice([257, 4096, 65537]), par)]))
    return cases


def mk_plain(d, algs, kind="gcm", seedit=True):
    def mk(i):
        alg = algs[i % len(algs)]
        k = d.bytes(16)
        x = " dummy=%d" % (i % 3) if alg.startswith("wbsm4") else ""
        h = k if alg == "add" else gf.aes(k, bytes(16)) if alg in ("aes", "wbaes") else None
        return (["seed t=%d" % d.seed(), "poison b=%d" % (i * 73 % 256), "ciph o=k alg=%s key=%s%s%s" % (alg, hx(k), x, " wrap=1" if i % 4 == 3 else ""), "gcm_init o=g c=k kind=%s" % kind], "g", h)
    return mk


def by_role(lines):
    """the masked mode seals with one table of a pair and opens with the other: object g over the
    sealing table, gd over the opening one; messages that decrypt move to gd"""
    out, msg = [], []

    def flush():
        if any(" dir=d" in l for l in msg):
            out.extend(l.replace(" dir=e", " dir=d").replace("o=g ", "o=gd ", 1) if l.startswith("gcm_data") and " dir=" in l
                       else l.replace("o=g ", "o=gd dir=d " if l.startswith("gcm_data") else "o=gd ", 1) for l in msg)
        else:
            out.extend(msg)
        msg.clear()
    for l in lines:
        if l.startswith("gcm_init o=g c=t kind=mask"):
            out.extend([l, "gcm_init o=gd c=u kind=mask"])
        elif l.startswith("gcm_iv o=g "):
            flush(); msg.append(l)
        elif msg:
            msg.append(l)
        else:
            out.append(l)
    flush()
    return out


def mk_table(d, kind):
    def mk(i):
        k = d.bytes(16)
        if kind == "ee":
            s = ["ee_key o=t key=%s" % hx(k), "gcm_init o=g c=t kind=ee"]
        else:
            s = ["mask_key o=t o2=u key=%s" % hx(k), "gcm_init o=g c=t kind=mask"]
        return (["seed t=%d" % d.seed(), "poison b=%d" % (i * 73 % 256)] + s, "g", gf.aes(k, bytes(16)))
    return mk


@prop("P06")
def p06(c):
    d = Data(c.rng)
    c.model("GcmModel", consts={"Depth": c.q(7, 9)}); c.model("Kat")
    cases = gcm_grid(c, d, mk_plain(d, ["aes", "sm4", "aes", "add", "sm4"]), None, "a")
    cases += gcm_wrap(c, d, mk_plain(d, ["aes", "add"]), "w")
    for i, alg in enumerate(["wbaes", "wbsm4"] * c.q(5, 40)):
        setup, o, _ = mk_plain(d, [alg])(i)
        cases.append(Case("wb-%d" % i, setup + ["gcm_iv o=g iv=%s" % hx(d.bytes(c.rng.choice([12, 12, 16, 7]))), "gcm_aad o=g aad=%s" % hx(d.bytes(c.rng.randrange(40))),
                     "gcm_data o=g dir=%s in=%s" % ("ed"[i % 2], hx(d.bytes(c.rng.randrange(70)))), "gcm_fin o=g n=16"]))
    if c.thorough:
        for r in range(6):
            cases += gcm_grid(c, d, mk_plain(d, ["aes", "sm4", "add"]), None, "a%d" % r)
            cases += gcm_wrap(c, d, mk_plain(d, ["aes", "add"]), "w%d" % r)
    # long messages, long AAD, long IV
    for i, n in enumerate(c.q([4100, 6000], [4095, 4100, 6000, 66000])):
        setup, o, _ = mk_plain(d, ["add", "aes"])(i)
        cases.append(Case("long-%d" % n, setup + ["gcm_iv o=g iv=%s" % hx(d.bytes(12)), "gcm_data o=g in=%s" % hx(d.rnd(n)), "gcm_fin o=g n=16",
                                                  "gcm_iv o=g iv=%s" % hx(d.bytes(300)), "gcm_aad o=g aad=%s" % hx(d.bytes(700)), "gcm_data o=g dir=d in=%s" % hx(d.rnd(n // 2)), "gcm_fin o=g n=16"], cost=60 * n))
    # messages, associated data and IVs of every size up to bit counts of 33 bits (System.GcmZero)
    zero = zero_cases(c, d, "z", lambda i: (mk_plain(d, ["aes", "sm4", "add"])(i)[0], "g", "g"))
    toy = lambda a: ["ciph o=k alg=%s key=%s" % (a, hx(d.rnd(16))), "gcm_init o=g c=k kind=gcm"]
    G = 1 << 29
    zero += [Case("huge-data", toy("const") + ["gcm_zero o=g iv=%s n=%d" % (hx(d.bytes(12)), G + c.rng.randrange(1, 100))]),
             Case("huge-chunks", toy("const") + ["gcm_zero o=g iv=%s n=%d chunk=%d" % (hx(d.bytes(12)), G + c.rng.randrange(1, 100), 1 << 28)]),
             Case("huge-aad", toy("const") + ["gcm_zero o=g iv=%s na=%d n=%d" % (hx(d.bytes(12)), G + c.rng.randrange(1, 100), c.rng.randrange(20))]),
             Case("huge-iv", toy("add") + ["gcm_zero o=g niv=%d n=%d" % (G + c.rng.randrange(1, 100), c.rng.randrange(20))])]
    if c.thorough:
        zero += [Case("huge-data2", toy("add") + ["gcm_zero o=g iv=%s n=%d" % (hx(d.bytes(12)), 2 * G + 77)]),
                 Case("huge-edge", toy("add") + ["gcm_zero o=g iv=%s na=%d n=%d" % (hx(d.bytes(12)), G - 1, G - 1), "gcm_zero o=g iv=%s na=%d n=%d" % (hx(d.bytes(12)), G, G)])]
    c.run(zero, timeout=400)
    # refusals for lack of room leave the message as it was
    for i in range(c.q(12, 60)):
        setup, o, _ = mk_plain(d, ["aes", "sm4", "add"])(i)
        n = c.rng.choice([1, 15, 16, 17, 40])
        cases.append(Case("cap-%d" % i, setup + ["gcm_iv o=g iv=%s" % hx(d.bytes(12)), "gcm_data o=g in=%s cap=%d" % (hx(d.bytes(n)), n - 1), "gcm_data o=g in=%s cap=0" % hx(d.bytes(n)),
                     "gcm_data o=g dir=%s in=%s cap=%d" % ("ed"[i % 2], hx(d.bytes(n)), n + i), "gcm_fin o=g n=16"]))
    c.run(cases)


@prop("P07")
def p07(c):
    d = Data(c.rng); g = Gcm(d)
    c.model("GcmModel", consts={"Depth": c.q(8, 9)}); c.model("Kat")
    f1 = c.model("GcmModel", "GcmHist", {"Depth": c.q(6, 7)}); f2 = c.model("GcmModel", "GcmHist2", {"Depth": c.q(7, 9)})
    cases = []
    for i, h in enumerate(pick(c.rng, c.histories(f1), c.q(260, 2500))):
        alg = ["aes", "sm4", "add"][i % 3]
        w = " wrap=1" if i % 5 == 0 else ""
        cases.append(Case("one-%d" % i, ["poison b=%d" % (i * 31 % 256), gcm_key(d, alg, "k", w), "gcm_init o=g c=k kind=gcm"] + g.history(h, {1: "g"})))
    for i, h in enumerate(pick(c.rng, c.histories(f2), c.q(160, 1500))):
        # two contexts over one key object or over two
        l = ["poison b=%d" % (i * 31 % 256), gcm_key(d, ["aes", "sm4", "add"][i % 3], "k"), "gcm_init o=g c=k kind=gcm"]
        if i % 2:
            l += ["gcm_init o=h c=k kind=gcm"]
        else:
            l += [gcm_key(d, ["sm4", "aes"][i % 4 // 2], "k2"), "gcm_init o=h c=k2 kind=gcm"]
        cases.append(Case("two-%d" % i, l + g.history(h, {1: "g", 2: "h"})))
    # a message in every chunking into whole blocks plus a rest
    for i in range(c.q(150, 800)):
        l = [gcm_key(d, ["aes", "sm4", "add"][i % 3], "k"), "gcm_init o=g c=k kind=gcm"]
        for rep in range(2):
            m = d.bytes(c.rng.randrange(0, 130)); iv = g.iv(); aad = d.bytes(c.rng.choice([0, 5, 16, 40])); dr = c.rng.choice("ed")
            for cut in range(2):
                l += ["gcm_iv o=g iv=%s" % iv] + (["gcm_aad o=g aad=%s" % hx(aad)] if aad else [])
                p = 0
                while p < len(m):
                    n = 16 * c.rng.choice([0, 1, 1, 2, 3])
                    if c.rng.random() < 0.25 or cut == 0:
                        n = len(m) - p
                    x = m[p:p + n]; p += n
                    l.append("gcm_data o=g dir=%s in=%s%s" % (dr, hx(x), " alias=1" if c.rng.random() < 0.3 else ""))
                l.append("gcm_fin o=g n=16")
        cases.append(Case("cut-%d" % i, l))
    c.run(cases)


# ------------------------------------------------------------- P08 parallel
@prop("P08")
def p08(c):
    d = Data(c.rng); g = Gcm(d)
    for ip in ("TRUE", "FALSE"):
        for de in ("TRUE", "FALSE"):
            c.model("ParGcm", consts={"InPlace": ip, "Decrypt": de, "Blocks": c.q(6, 9)})
    c.model("Kat")
    f4 = c.model("ParGcm", "ParHist"); f5 = c.model("ParGcm", "ParHist", {"Threads": 2, "Blocks": 6})
    f1 = c.model("GcmModel", "GcmHist", {"Depth": 6})
    cases = []
    sch = [(4, h) for h in pick(c.rng, c.histories(f4), c.q(60, 700))] + [(6, h) for h in pick(c.rng, c.histories(f5), c.q(20, 200))]
    sch += [(9, h) for h in c.simulate("ParGcm", "ParHist", c.q(40, 400), 40, {"Blocks": 9})]
    for i, (nb, h) in enumerate(sch):
        l = ["poison b=%d" % (i * 31 % 256), gcm_key(d, ["add", "aes", "sm4"][i % 3], "k", " wrap=1"), "gcm_init o=g c=k kind=gcm"]
        n = 16 * nb - [0, 0, 5, 15, 1][i % 5]
        for dr in "ed":
            pre = 16 * (i % 3)
            l += ["gcm_iv o=g iv=%s" % hx(d.bytes(12)), "gcm_aad o=g aad=%s" % hx(d.bytes(i % 20))]
            if pre:
                l.append("gcm_data o=g dir=%s in=%s par=%d" % (dr, hx(d.bytes(pre)), i % 2))
            l += ["gcm_data o=g dir=%s par=1 base=%d sched=%s in=%s%s" % (dr, 1 + pre // 16, ",".join(map(str, h)), hx(d.rnd(n)), " alias=1" if i % 2 else ""),
                  "gcm_fin o=g n=16"]
        cases.append(Case("sched-%d" % i, l, sched=True))
    # every length around the block and share boundaries
    for n in list(range(0, 36)) + [47, 48, 49, 63, 64, 65, 79, 80, 81, 95, 96, 97, 111, 112, 113, 127, 128, 129, 143, 144, 145, 200, 255, 256, 257]:
        l = ["poison b=%d" % (n * 31 % 256), gcm_key(d, ["aes", "sm4", "add"][n % 3], "k"), "gcm_init o=g c=k kind=gcm"]
        for dr in "ed":
            for al in (0, 1):
                l += ["gcm_iv o=g iv=%s" % g.iv(), "gcm_aad o=g aad=%s" % hx(d.bytes(n % 23)), "gcm_data o=g dir=%s par=1 alias=%d in=%s" % (dr, al, hx(d.bytes(n))), "gcm_fin o=g n=16"]
        cases.append(Case("n-%d" % n, l, sched=True))
    cases += [Case(x.id, x.lines, sched=True) for x in gcm_wrap(c, d, mk_plain(d, ["aes", "add"]), "w", par=True)]
    cases += [Case(x.id, x.lines, sched=True) for x in zero_cases(c, d, "z", lambda i: (mk_plain(d, ["aes", "sm4", "add"])(i)[0], "g", "g"), par=1, top=c.q(1 << 22, 1 << 25))]
    # serial and parallel calls mixed in the same histories
    for i, h in enumerate(pick(c.rng, c.histories(f1), c.q(80, 800))):
        cases.append(Case("mix-%d" % i, [gcm_key(d, ["aes", "sm4", "add"][i % 3], "k"), "gcm_init o=g c=k kind=gcm"] + g.history(h, {1: "g"}, par=0.6), sched=True))
    # stress: many repetitions, every distinct outcome is validated
    for i in range(c.q(24, 120)):
        n = c.rng.choice([64, 100, 256, 250, 511, 512, 33, 17])
        cases.append(Case("stress-%d" % i, [gcm_key(d, ["aes", "add", "sm4"][i % 3], "k", " wrap=1" if i % 2 else ""), "gcm_init o=g c=k kind=gcm",
                     "gcm_stress o=g dir=%s in=%s iv=%s aad=%s reps=%d alias=%d" % ("ed"[i % 2], hx(d.rnd(n)), hx(d.bytes(12)), hx(d.bytes(i)), c.q(150, 1500), i // 2 % 2)], sched=True, cost=4000 + 20 * n))
    c.run(cases)


# ------------------------------------------------------- P12, P13 white-box GCM
def wb_gcm(c, kind):
    d = Data(c.rng); g = Gcm(d)
    c.model("GcmModel", consts={"Depth": c.q(7, 8)}); c.model("Kat")
    f1 = c.model("GcmModel", "GcmHist", {"Depth": c.q(6, 7)}); f2 = c.model("GcmModel", "GcmHist2", {"Depth": c.q(7, 8)})
    mk = mk_table(d, kind)
    cases = gcm_grid(c, d, mk, None, "a") + gcm_wrap(c, d, mk, "w")
    if kind == "mask":
        cases = [Case(x.id, by_role(x.lines)) for x in cases]
    for i, h in enumerate(pick(c.rng, c.histories(f1), c.q(60, 800))):
        setup, o, _ = mk(i)
        l = setup + g.history(h, {1: "g"})
        cases.append(Case("one-%d" % i, by_role(l) if kind == "mask" else l))
    for i, h in enumerate(pick(c.rng, c.histories(f2), c.q(40, 400))):
        k = d.key()
        if kind == "ee":
            l = ["ee_key o=t key=%s" % hx(k), "ee_key o=u key=%s" % hx(k if i % 2 else d.key()), "gcm_init o=g c=t kind=ee", "gcm_init o=h c=%s kind=ee" % "tu"[i // 2 % 2]]
        else:
            l = ["mask_key o=t o2=u key=%s" % hx(k), "gcm_init o=g c=t kind=mask", "gcm_init o=h c=%s kind=mask" % "tu"[i // 2 % 2]]
        mode = None if kind == "ee" else {1: "e", 2: "ed"[i // 2 % 2]}
        cases.append(Case("two-%d" % i, ["seed t=%d" % d.seed()] + l + g.history(h, {1: "g", 2: "h"}, mode)))
    # seal with one context, open with the other: the library's own ciphertext comes back with the same tag
    for i in range(c.q(12, 100)):
        k = hx(d.key()); n = c.rng.choice([0, 1, 15, 16, 17, 40, 64, 100]); iv = hx(d.bytes(12)); aad = hx(d.bytes(i % 21))
        if kind == "ee":
            l = ["ee_key o=t key=%s" % k, "ee_key o=u key=%s" % k, "gcm_init o=g c=t kind=ee", "gcm_init o=h c=u kind=ee"]
        else:
            l = ["mask_key o=t o2=u key=%s" % k, "gcm_init o=g c=t kind=mask", "gcm_init o=h c=u kind=mask"]
        cases.append(Case("open-%d" % i, ["seed t=%d" % d.seed()] + l + ["gcm_rt o=g o2=h iv=%s aad=%s in=%s" % (iv, aad, hx(d.bytes(n)))]))
    # keys of every length, many seeds
    for n in range(0, c.q(34, 41)):
        k = hx(d.rnd(n))
        l = ["ee_key o=t key=%s" % k, "gcm_init o=g c=t kind=ee"] if kind == "ee" else ["mask_key o=t o2=u key=%s" % k, "gcm_init o=g c=t kind=mask"]
        cases.append(Case("len-%d" % n, ["seed t=%d" % d.seed(), "poison b=%d" % (0xA5 if n % 2 else 0x5A)] + l + ["gcm_iv o=g iv=%s" % g.iv(), "gcm_aad o=g aad=%s" % hx(d.bytes(n)),
                     "gcm_data o=g in=%s" % hx(d.bytes(40 + n)), "gcm_fin o=g n=16"]))
    cases += zero_cases(c, d, "z", lambda i: (mk(i)[0] + (["gcm_init o=gd c=u kind=mask"] if kind == "mask" else []), "g", "gd" if kind == "mask" else "g"), top=c.q(1 << 21, 1 << 25))
    for n in c.q([4100], [4100, 9000]):
        setup, o, _ = mk(1)
        cases.append(Case("long-%d" % n, setup + ["gcm_iv o=g iv=%s" % hx(d.bytes(12)), "gcm_data o=g in=%s" % hx(d.rnd(n)), "gcm_fin o=g n=16"], cost=60 * n))
    c.run(cases)


@prop("P12")
def p12(c):
    wb_gcm(c, "ee")


@prop("P13")
def p13(c):
    wb_gcm(c, "mask")


# ------------------------------------------------------------------ P14 SM3
@prop("P14")
def p14(c):
    d = Data(c.rng)
    c.model("Sm3Model", consts={"Depth": c.q(7, 9)}); c.model("Kat")
    f = c.model("Sm3Model", "Sm3Hist")
    cases = []
    real = lambda n: c.rng.choice({0: [0], 1: [1, 3, 9, 20], 2: [32, 31, 33, 40, 28], 3: [63, 55, 56, 60, 62], 4: [64, 64, 64, 128], 5: [65, 66, 72, 119, 120], 8: [127, 128, 129, 192, 200]}[n])
    for i, h in enumerate(pick(c.rng, c.histories(f), c.q(250, 2500))):
        l = ["poison b=%d" % (i * 31 % 256)]
        opn = False
        for x in h:
            if x == -1:
                l.append("sm3_init o=h"); opn = True
            elif x == -2:
                l.append("sm3_fin o=h")
            else:
                l.append("sm3_upd o=h in=%s" % hx(d.bytes(real(x))))
        cases.append(Case("h-%d" % i, l))
    # two contexts interleaved
    for i in range(c.q(150, 800)):
        l = ["sm3_init o=a", "sm3_init o=b"]
        for _ in range(6):
            l.append("sm3_upd o=%s in=%s" % (c.rng.choice("ab"), hx(d.bytes(c.rng.choice([0, 1, 17, 55, 63, 64, 65, 100])))))
        l += ["sm3_fin o=a", "sm3_upd o=b in=%s" % hx(d.bytes(5)), "sm3_fin o=b", "sm3_init o=a", "sm3_upd o=a in=%s" % hx(d.bytes(70)), "sm3_fin o=a"]
        cases.append(Case("two-%d" % i, l))
    for n in range(0, c.q(200, 600)):
        m = d.bytes(n); k = c.rng.randrange(n + 1)
        cases.append(Case("n-%d" % n, ["poison b=%d" % (n * 7 % 256), "sm3 in=%s" % hx(m), "sm3_init o=h", "sm3_upd o=h in=%s" % hx(m[:k]), "sm3_upd o=h in=%s" % hx(m[k:]), "sm3_fin o=h"]))
    # a byte at a time
    m = d.rnd(140)
    cases.append(Case("bytes", ["sm3_init o=h"] + ["sm3_upd o=h in=%02x" % b for b in m] + ["sm3_fin o=h"]))
    for n in c.q([8191, 8192, 8193, 20000], [8191, 8192, 8193, 65535, 65536, 100000]):
        cases.append(Case("big-%d" % n, ["sm3 in=%s" % hx(d.rnd(n))], cost=5 * n))
    # any size, up to bit counts of 33 bits: a digest continued (System.Sm3Big)
    for i, n in enumerate([511, 512, 8191, 8192, 65535, 65536, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 24) + 7, (1 << 25) - 1]):
        t = hx(d.bytes(c.rng.randrange(70)))
        cases.append(Case("ext-%d" % n, ["sm3_big n=%d tail=%s one=1" % (n, t), "sm3_big n=%d tail=%s" % (n, t), "sm3_big n=%d chunk=%d tail=%s" % (n, c.rng.choice([4096, 1000, 65537]), t)]))
    G = 1 << 29
    huge = [Case("huge-one", ["sm3_big n=%d tail=%s one=1" % (G + c.rng.randrange(1, 99), hx(d.bytes(9)))]), Case("huge-upd", ["sm3_big n=%d tail=%s" % (G + c.rng.randrange(1, 99), hx(d.bytes(9)))]),
            Case("huge-carry", ["sm3_big n=%d tail=%s chunk=%d" % (G + 70, hx(d.bytes(70)), c.rng.randrange(10 ** 8, 3 * 10 ** 8))]), Case("huge-edge", ["sm3_big n=%d tail=%s chunk=%d" % (G - 1 - c.rng.randrange(60), hx(d.bytes(3)), 1 << 26)])]
    if c.thorough:
        huge += [Case("huge-two", ["sm3_big n=%d tail=%s" % (2 * G + 5, hx(d.bytes(9)))]), Case("huge-three", ["sm3_big n=%d tail=%s chunk=%d" % (3 * G + 5, hx(d.bytes(9)), 3 << 28)])]
    c.run(huge, timeout=400)
    c.run(cases)


# ------------------------------------------------------------- P09..P11 files
KINDS = ["aes", "sm4", "ee", "add", "mask", "wbaes", "wbsm4"]


def file_pair(d, kind, k=None, w="w", r="r", t="t"):
    """lines that make a writing and a reading context over the same key"""
    k = hx(d.bytes(16) if k is None else k)
    if kind == "ee":
        return ["ee_key o=%s key=%s" % (t, k), "gcm_init o=%s c=%s kind=ee" % (w, t), "gcm_init o=%s c=%s kind=ee" % (r, t)]
    if kind == "mask":
        return ["mask_key o=%s o2=%sd key=%s" % (t, t, k), "gcm_init o=%s c=%s kind=mask" % (w, t), "gcm_init o=%s c=%sd kind=mask" % (r, t)]
    x = " dummy=%d" % d.r.randrange(2) if kind == "wbsm4" else ""
    return ["ciph o=%s alg=%s key=%s%s" % (t, kind, k, x), "gcm_init o=%s c=%s kind=file" % (w, t), "gcm_init o=%s c=%s kind=file" % (r, t)]


def prep(o, iv, aad=b""):
    return ["gcm_iv o=%s iv=%s" % (o, hx(iv))] + (["gcm_aad o=%s aad=%s" % (o, hx(aad))] if aad else [])


@prop("P09")
def p09(c):
    d = Data(c.rng)
    c.model("FileModel"); c.model("Kat")
    cases = []
    sizes = list(range(0, 34)) + [47, 48, 49, 63, 64, 65, 96, 100, 111, 112, 113, 126, 127, 128, 129, 130, 143, 144, 145, 160, 200, 239, 240, 241,
                                  254, 255, 256, 257, 258, 300, 383, 384, 385, 511, 512, 513, 640, 1000, 1024, 1025]
    kinds = ["aes", "ee", "sm4", "mask", "add"]
    for i, n in enumerate(sizes):
        for kind in (kinds[i % 5], kinds[(i + 2) % 5]):
            iv, aad = d.bytes(c.rng.choice([12, 12, 12, 16, 8, 1, 33])), d.bytes(c.rng.choice([0, 0, 5, 16, 20, 40]))
            l = ["seed t=%d" % d.seed(), "poison b=%d" % (n * 37 % 256)] + file_pair(d, kind) + ["fput p=m b=%s" % hx(d.bytes(n))]
            if i % 3 == 0:        # longer outputs from before are replaced entirely
                l += ["fput p=e b=%s" % hx(d.bytes(n + 60)), "fput p=o b=%s" % hx(d.bytes(n + 30))]
            l += prep("w", iv, aad) + ["fenc o=w inp=m outp=e"] + prep("r", iv, aad) + ["fdec o=r inp=e outp=o"]
            cases.append(Case("n-%s-%d" % (kind, n), l))
    # contexts used for several files in a row, same context for both directions
    for i in range(c.q(16, 120)):
        kind = ["aes", "ee", "sm4", "add", "mask"][i % 5]
        l = ["seed t=%d" % d.seed()] + file_pair(d, kind)
        for j in range(3):
            n = c.rng.choice([0, 1, 16, 31, 128, 150, 260]); iv, aad = d.bytes(12), d.bytes(c.rng.choice([0, 3, 17]))
            r = "w" if kind != "mask" and c.rng.random() < 0.5 else "r"
            l += ["fput p=m%d b=%s" % (j, hx(d.bytes(n)))] + prep("w", iv, aad) + ["fenc o=w inp=m%d outp=e%d" % (j, j)] + prep(r, iv, aad) + ["fdec o=%s inp=e%d outp=o%d" % (r, j, j)]
        l += prep("r", iv, aad) + ["fdec o=r inp=e2 outp=o0"]
        cases.append(Case("seq-%d" % i, l))
    # a file encrypted or decrypted onto itself; neighbours with the names a spool file might have
    for i in range(c.q(15, 90)):
        kind = kinds[i % 5]; n = [0, 5, 40, 150, 900, 5000][(i // 5 + i) % 6] if kind == "add" or i % 3 else 33
        iv, aad = d.bytes(12), d.bytes(c.rng.choice([0, 7]))
        l = ["seed t=%d" % d.seed()] + file_pair(d, kind) + ["fput p=m b=%s" % hx(d.rnd(n))] + ["fput p=%s b=%s" % (x, hx(d.rnd(9))) for x in ("e.tmp", "e~", "m.tmp", "tmp", "o.tmp")]
        l += prep("w", iv, aad) + ["fenc o=w inp=m outp=e"] + prep("r", iv, aad) + ["fdec o=r inp=e outp=o"]
        l += prep("w", iv, aad) + ["fenc o=w inp=m outp=m"] + prep("r", iv, aad) + ["fdec o=r inp=m outp=p"] + prep("r", iv, aad) + ["fdec o=r inp=e outp=e"]
        l += prep("w", iv, aad) + ["fenc o=w inp=e.tmp outp=e"] + prep("r", iv, aad) + ["fdec o=r inp=e outp=e.tmp"] + prep("r", iv, aad) + ["fdec o=r inp=e outp=o"]
        l += ["fmut p=e how=xor at=%d x=%d" % (d.r.randrange(16), d.r.randrange(1, 256))] + prep("r", iv, aad) + ["fdec o=r inp=e outp=e"]
        cases.append(Case("self-%s-%d" % (kind, i), l, cost=2000 + 40 * n))
    # any name as input, output or both, with neighbours (TLC histories)
    c.model("PathModel", consts=c.q({"Depth": 2}, {"Depth": 4}))
    for i, h in enumerate(pick(c.rng, c.simulate("PathModel", "PathHist", c.q(100, 400), 6), c.q(60, 500))):
        kind = kinds[i % 5]; iv, aad = d.bytes(12), d.bytes(c.rng.choice([0, 4])); sz = {}
        l = ["seed t=%d" % d.seed()] + file_pair(d, kind)
        for name in sorted(h[0]):
            if h[0][name] != "-":
                l.append("fput p=%s b=%s" % (name, hx(d.rnd(0 if h[0][name] == "0" else d.r.choice([1, 15, 16, 40, 90])))))
        for op, a, b in h[1:]:
            w = "w" if op != "dec" else "r"
            l += prep(w, iv, aad) + ["f%s o=%s inp=%s outp=%s%s" % ("dec" if op == "dec" else "enc", w, a, b, " lim=%d" % d.r.choice([0, 1, 5, 20, 23]) if op == "full" else "")]
        cases.append(Case("path-%s-%d" % (kind, i), l, cost=4000))
    # two writers interleaved up to the file call; other objects of the same key at work in between
    for i in range(c.q(8, 60)):
        l = ["ciph o=k alg=%s key=%s" % (["aes", "sm4"][i % 2], hx(d.bytes(16))), "gcm_init o=a c=k kind=file", "gcm_init o=b c=k kind=file", "gcm_init o=g c=k kind=gcm",
             "fput p=m b=%s" % hx(d.bytes(40 + i)), "fput p=n b=%s" % hx(d.bytes(130))]
        iv1, iv2 = d.bytes(12), d.bytes(12)
        l += prep("a", iv1, b"x") + prep("b", iv2) + prep("g", d.bytes(12)) + ["gcm_data o=g in=%s" % hx(d.bytes(20)), "fenc o=a inp=m outp=ea", "fenc o=b inp=n outp=eb", "gcm_fin o=g n=16"]
        l += prep("b", iv1, b"x") + prep("a", iv2) + ["fdec o=b inp=ea outp=oa", "fdec o=a inp=eb outp=ob"]
        cases.append(Case("two-%d" % i, l))
    for i, n in enumerate(c.q([3000, 66000], [3000, 8192, 20000, 66000])):
        for kind in ("add", "ee") if n < 60000 else ("add",):
            iv = d.bytes(12)
            cases.append(Case("big-%s-%d" % (kind, n), file_pair(d, kind) + ["fput p=m b=%s" % hx(d.rnd(n))] + prep("w", iv) + ["fenc o=w inp=m outp=e"] + prep("r", iv) + ["fdec o=r inp=e outp=o"], cost=80 * n))
    # big files, whose message is the keystream itself (System.KsFile)
    big = []
    for i, n in enumerate(c.q([70001, 131072, 200000, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 77], [70001, 131072, 131073, 200000, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 77, (1 << 25) + 1, (1 << 28) + 3])):
        for kind in ["aes", "ee", "sm4", "mask"] if n < 300000 else [["add", "aes"][i % 2], ["ee", "mask"][i // 2 % 2]] if n <= 1 << 20 or c.thorough and n < 1 << 26 else [["add", "aes"][i % 2]] if n < 1 << 24 else [["add", "aes"][i % 2], ["ee", "mask"][i % 2]]:
            iv = d.bytes(12); ks = "r" if kind in ("ee", "mask") else "g"
            l = ["seed t=%d" % d.seed()] + file_pair(d, kind, d.rnd(16)) + (["gcm_init o=g c=t kind=gcm"] if ks == "g" else []) + prep(ks, iv) + ["fks o=%s n=%d p=m" % (ks, n)]
            l += prep("w", iv) + ["fenc o=w inp=m outp=e"] + prep("r", iv) + ["fdec o=r inp=e outp=o"]
            big.append(Case("ks-%s-%d" % (kind, n), l, cost=1000 + n // 10))
    c.run(big, timeout=300)
    for i in range(c.q(4, 30)):
        kind = ["wbaes", "wbsm4"][i % 2]; iv = d.bytes(12); n = c.rng.choice([0, 15, 64, 129, 200])
        cases.append(Case("wb-%d" % i, ["seed t=%d" % d.seed()] + file_pair(d, kind) + ["fput p=m b=%s" % hx(d.rnd(n))] + prep("w", iv, b"aad") + ["fenc o=w inp=m outp=e"] + prep("r", iv, b"aad") + ["fdec o=r inp=e outp=o"]))
    c.run(cases)


def file_history(d, h, kind, tag):
    r = d.r
    u = r.choice([16, 16, 128])
    iv, aad = d.bytes(12), d.bytes(r.choice([0, 4, 16, 20]))
    key = d.bytes(16)
    l = ["seed t=%d" % d.seed()] + file_pair(d, kind, key)
    L = None
    blocks = 0
    if kind in ("aes", "sm4") and any(x[0] == "crash" for x in h):
        l[1] += " wrap=1"        # so that a crash can be placed at a block
    size = 0
    for op in h:
        k = op[0]
        if k in ("enc", "full", "crash"):
            n = op[1]; L = 0 if n == 0 else u * (n - 1) + r.randrange(1, u + 1)
            size = L
            l += ["fput p=m b=%s" % hx(d.rnd(L))] + (["fput p=e b=%s" % hx(d.rnd(L + 40))] if r.random() < 0.2 else []) + prep("w", iv, aad)
            if k == "enc":
                l.append("fenc o=w inp=m outp=e")
            else:
                at = op[2]
                lim = min(L + 23, 24 + u * at) if at >= 0 else min(L - 1, max(0, u * (-1 - at))) if L and k == "crash" else r.randrange(0, max(1, min(L, 24)))
                if k == "full":
                    l.append("fenc o=w inp=m outp=e lim=%d" % max(0, lim))
                elif r.random() < 0.5 and kind in ("aes", "sm4", "add") and L:
                    l.append("fenc o=w inp=m outp=e killblk=%d" % r.randrange(1, (L + 15) // 16 + 1))
                else:
                    l.append("fenc o=w inp=m outp=e killlim=%d" % max(0, lim))
        elif k == "flip":
            lo = u * (op[1] - 1); hi = max(lo + 1, min(L, lo + u))
            l.append("fmut p=e how=xor at=%d x=%d" % (24 + r.randrange(lo, hi), 1 << r.randrange(8)))
        elif k == "tag":
            l.append("fmut p=e how=xor at=%d x=%d" % (r.randrange(16), r.choice([1, 128, 255, 16, r.randrange(1, 256)])))
        elif k == "size":
            size += op[1] * r.choice([1, 1, 16, u, 256])
            l.append("fmut p=e how=set at=16 b=%s" % (size & 0xffffffff).to_bytes(4, "little").hex())
        elif k == "trunc":
            at = 24 + u * op[1] + (r.randrange(u) if r.random() < 0.4 else 0)
            l.append("fmut p=e how=trunc at=%d" % at)
        elif k == "append":
            l.append("fmut p=e how=append b=%s" % hx(d.bytes(r.choice([1, 1, 15, 16, u, 200]))))
        elif k == "swap":
            l.append("fmut p=e how=swap at=%d x=%d" % (24 + u * (op[1] - 1), 24 + u * (op[2] - 1)))
        elif k == "cut":
            l.append("fmut p=e how=cut at=24 m=%d" % r.choice([1, 16, min(u, max(1, L))]))
        elif k == "shrink":
            m = r.choice([1, L % u or u, min(L, 16)]) if L else 1
            size -= m
            l += ["fmut p=e how=trunc at=-%d" % m, "fmut p=e how=set at=16 b=%s" % (size & 0xffffffff).to_bytes(4, "little").hex()]
        elif k == "grow":
            m = r.choice([1, 16, u]); size += m
            l += ["fmut p=e how=append b=%s" % hx(bytes(m) if r.random() < 0.5 else d.bytes(m)), "fmut p=e how=set at=16 b=%s" % (size & 0xffffffff).to_bytes(4, "little").hex()]
        elif k == "header":
            l.append("fmut p=e how=trunc at=%d" % r.randrange(24))
        elif k == "dec":
            if r.random() < 0.3:
                l.append("fput p=o b=%s" % hx(d.rnd(r.choice([5, 80, 300]))))
            iv2, aad2 = iv, aad
            if op[1] == 2:
                w = r.randrange(3)
                if w == 0:
                    iv2 = bytes([iv[0] ^ 1 << r.randrange(8)]) + iv[1:] if r.random() < 0.5 else d.rnd(r.choice([12, 16, 11, 13]))
                elif w == 1:
                    aad2 = aad + b"x" if not aad or r.random() < 0.5 else aad[:-1]
                else:
                    l += file_pair(d, kind, bytes([key[0] ^ 1]) + key[1:], "w2", "r", "t2")
            l += prep("r", iv2, aad2) + ["fdec o=r inp=e outp=o"]
            # and with the right context again: the refusal left everything usable
            if op[1] == 2 and w != 2 and r.random() < 0.5:
                l += prep("r", iv, aad) + ["fdec o=r inp=e outp=o"]
    return Case(tag, l)


@prop("P10")
def p10(c):
    d = Data(c.rng)
    c.model("FileModel", consts={"MaxBlocks": 3, "MaxMut": c.q(2, 3)}); c.model("Kat")
    f = c.model("FileModel", "FileHist", {"MaxMut": c.q(2, 2)})
    cases = []
    H = c.histories(f)
    one = [h for h in H if len(h) <= 3]
    hs = one + pick(c.rng, [h for h in H if len(h) > 3], c.q(150, 2500))
    for i, h in enumerate(hs):
        cases.append(file_history(d, h, ["aes", "ee", "add", "sm4", "mask"][i % 5] if i % 40 else ["wbaes", "wbsm4"][i // 40 % 2], "h%d" % i))
    # every byte and bit position of a small file
    for kind in ("aes", "sm4", "ee", "mask", "add"):
        n, iv, aad = 21, d.bytes(12), d.bytes(7)
        pos = list(range(24 + n))
        for j in range(0, len(pos), 12):
            l = ["seed t=%d" % d.seed()] + file_pair(d, kind) + ["fput p=m b=%s" % hx(d.rnd(n))] + prep("w", iv, aad) + ["fenc o=w inp=m outp=e"]
            for p in pos[j:j + 12]:
                x = 1 << c.rng.randrange(8)
                l += ["fmut p=e how=xor at=%d x=%d" % (p, x)] + prep("r", iv, aad) + ["fdec o=r inp=e outp=o", "fmut p=e how=xor at=%d x=%d" % (p, x)]
            l += prep("r", iv, aad) + ["fdec o=r inp=e outp=o"]
            cases.append(Case("bit-%s-%d" % (kind, j), l))
        # every length a copy may be cut to
        l = []
        for t in range(0, 24 + n):
            if t % 15 == 0:
                if l:
                    cases.append(Case("cut-%s-%d" % (kind, t), l))
                l = ["seed t=%d" % d.seed()] + file_pair(d, kind) + ["fput p=m b=%s" % hx(d.rnd(n))] + prep("w", iv, aad) + ["fenc o=w inp=m outp=e"]
            l += ["fmut p=e how=cp to=f", "fmut p=f how=trunc at=%d" % t] + prep("r", iv, aad) + ["fdec o=r inp=f outp=o"]
        cases.append(Case("cut-%s-end" % kind, l))
    # changes to big files, anywhere
    for i, n in enumerate(c.q([80000, 200000], [80000, 200000, 1 << 20, 1 << 24])):
        for kind in ("aes", "ee", "mask", "add"):
            iv = d.bytes(12); ks = "r" if kind in ("ee", "mask") else "g"
            l = ["seed t=%d" % d.seed()] + file_pair(d, kind, d.rnd(16)) + (["gcm_init o=g c=t kind=gcm"] if ks == "g" else []) + prep(ks, iv) + ["fks o=%s n=%d p=m" % (ks, n)] + prep("w", iv) + ["fenc o=w inp=m outp=e"]
            for at in (c.rng.randrange(24, 24 + n), -1, 24, 24 + 65536, 19, c.rng.randrange(16)):
                l += ["fmut p=e how=xor at=%d x=%d" % (at, 1 << c.rng.randrange(8))] + prep("r", iv) + ["fdec o=r inp=e outp=o"] + prep("w", iv) + ["fenc o=w inp=m outp=e"]
            for m in ("trunc at=-1", "trunc at=-16", "trunc at=%d" % (24 + 65536), "append b=00", "append b=%s" % ("00" * 16), "cut at=24 m=16"):
                l += ["fmut p=e how=" + m] + prep("r", iv) + ["fdec o=r inp=e outp=o"] + prep("w", iv) + ["fenc o=w inp=m outp=e"]
            l += prep("r", iv) + ["fdec o=r inp=e outp=o"]
            cases.append(Case("big-%s-%d" % (kind, n), l))
    # two files of one key: header of one, body of the other
    for i in range(c.q(10, 60)):
        kind = ["aes", "ee", "sm4", "mask", "add"][i % 5]; n = c.rng.choice([16, 20, 128, 140]); iv1, iv2 = d.bytes(12), d.bytes(12)
        l = ["seed t=%d" % d.seed()] + file_pair(d, kind) + ["fput p=m b=%s" % hx(d.rnd(n)), "fput p=n b=%s" % hx(d.rnd(n))]
        l += prep("w", iv1) + ["fenc o=w inp=m outp=e"] + prep("w", iv2 if i % 2 else iv1, b"" if i % 4 < 2 else b"zz") + ["fenc o=w inp=n outp=f"]
        for iv in (iv1, iv2):
            l += prep("r", iv) + ["fdec o=r inp=f outp=o"]
        l += ["fmut p=e how=cut at=24 m=%d" % n, "fmut p=e how=append b=%s" % hx(d.rnd(n))] + prep("r", iv1) + ["fdec o=r inp=e outp=o"]
        cases.append(Case("mix-%d" % i, l))
    # garbage
    for i in range(c.q(10, 60)):
        kind = ["aes", "ee", "sm4", "mask", "add"][i % 5]; n = c.rng.choice([0, 1, 15, 16, 23, 24, 25, 40, 41, 152, 160])
        b = bytearray(d.bytes(n))
        if n >= 24 and i % 2:
            b[16:24] = (n - 24).to_bytes(8, "little")
        cases.append(Case("junk-%d" % i, ["seed t=%d" % d.seed()] + file_pair(d, kind) + ["fput p=e b=%s" % hx(b), "fput p=o b=0102"] + prep("r", d.bytes(12)) + ["fdec o=r inp=e outp=o"]))
    c.run(cases)


@prop("P11")
def p11(c):
    d = Data(c.rng)
    c.model("FileModel"); c.model("FaultModel"); c.model("Kat")
    cases = []
    for kind in ("aes", "sm4", "ee", "mask", "add"):
        for i in range(c.q(2, 6)):
            n = c.rng.choice([1, 16, 40, 130]); iv = d.bytes(12)
            ok = ["fput p=m b=%s" % hx(d.rnd(n))] + prep("w", iv) + ["fenc o=w inp=m outp=e"] + prep("r", iv) + ["fdec o=r inp=e outp=o"]
            s = ["seed t=%d" % d.seed()] + file_pair(d, kind)
            A = lambda x: prep("w", iv) + [x]
            B = lambda x: prep("r", iv) + [x]
            # missing and unreadable inputs, impossible outputs; afterwards the same contexts work
            l = s + A("fenc o=w inp=none outp=e") + B("fdec o=r inp=none outp=o") + ["fmut p=dir how=mkdir"] + A("fenc o=w inp=dir outp=e") + B("fdec o=r inp=dir outp=o") + \
                ["fput p=keep b=%s" % hx(d.rnd(9)), "fput p=m b=%s" % hx(d.rnd(n))] + A("fenc o=w inp=m outp=dir") + A("fenc o=w inp=m outp=no/where obad=1") + ok + \
                B("fdec o=r inp=e outp=dir") + B("fdec o=r inp=e outp=no/where obad=1") + ["fmut p=full how=full"] + A("fenc o=w inp=m outp=full obad=1") + B("fdec o=r inp=e outp=full obad=1") + \
                B("fdec o=r inp=e outp=o2")
            cases.append(Case("paths-%s-%d" % (kind, i), l))
        # the disk is full after any number of bytes
        n = c.rng.choice([40, 150]); iv = d.bytes(12)
        lims = list(range(0, n + 24)) if c.thorough else sorted(set(c.rng.sample(range(0, n + 24), 24)) | {0, 1, 15, 16, 23, 24, n - 1, n, n + 1, n + 22, n + 23})
        for j in range(0, len(lims), 12):
            l = ["seed t=%d" % d.seed()] + file_pair(d, kind) + ["fput p=m b=%s" % hx(d.rnd(n)), "fput p=keep b=0011"]
            for lim in lims[j:j + 12]:
                l += prep("w", iv) + ["fenc o=w inp=m outp=e lim=%d" % lim]
            l += prep("w", iv) + ["fenc o=w inp=m outp=e lim=%d" % (n + 24)]
            for lim in lims[j:j + 12]:
                if lim < n:
                    l += prep("r", iv) + ["fdec o=r inp=e outp=o lim=%d" % lim]
            l += prep("r", iv) + ["fdec o=r inp=e outp=o lim=%d" % n]
            cases.append(Case("lim-%s-%d" % (kind, j), l))
    # sizes around the stdio buffer, where an early write fails and a late one does not, or the other way round
    for i, n in enumerate(c.q([4000, 4100, 5000], [4000, 4071, 4072, 4073, 4096, 4100, 5000, 8200])):
        iv = d.bytes(12)
        l = file_pair(d, "add") + ["fput p=m b=%s" % hx(d.rnd(n))]
        for lim in (n - 1, n, n + 10, n + 23, n + 24, 100, 4095, 4096, 4097):
            l += prep("w", iv) + ["fenc o=w inp=m outp=e lim=%d" % lim]
        cases.append(Case("buf-%d" % n, l, cost=200 * n))
    # the block cipher fails at any block
    for i in range(c.q(10, 60)):
        alg = ["aes", "sm4", "add"][i % 3]; n = c.rng.choice([1, 16, 17, 40, 128, 140]); nb = (n + 15) // 16; iv = d.bytes(12)
        l = ["ciph o=t alg=%s key=%s wrap=1" % (alg, hx(d.bytes(16))), "gcm_init o=w c=t kind=file", "gcm_init o=r c=t kind=file", "fput p=m b=%s" % hx(d.rnd(n))]
        l += prep("w", iv) + ["fenc o=w inp=m outp=e"]
        for at in sorted({1, nb, (nb + 1) // 2}):
            l += prep("w", iv) + ["fail at=%d mode=%d" % (at, i % 2), "fenc o=w inp=m outp=f", "fail at=0"] + prep("r", iv) + ["fail at=%d mode=%d" % (at, i % 2), "fdec o=r inp=e outp=o", "fail at=0"]
        l += prep("r", iv) + ["fdec o=r inp=e outp=o"]
        cases.append(Case("cb-%d" % i, l))
    c.run(cases)


# ------------------------------------------------------ P15..P18 format-preserving
FPE_ALGS = ["aes", "sm4", "add", "aes", "sm4", "add", "aes", "wbaes", "sm4", "wbsm4"]


def fpe_key(d, i, o="k", algs=FPE_ALGS, wrap=True):
    a = algs[i % len(algs)]
    return ["seed t=%d" % d.seed(), "poison b=%d" % (i * 73 % 256), gcm_key(d, a, o, " wrap=1" if wrap and i % 4 == 1 and not a.startswith("wb") else "")]


def fpe_pair(kind, s, o="f"):
    return ["fpe o=%s kind=%s dir=e in=%s" % (o, kind, sx(s)), "fpe o=%s kind=%s dir=d in=%s" % (o, kind, sx(s))]


def fpe_cases(c, d, kinds, tag, mac=0):
    cases = []
    lo = 2 if kinds[0].startswith("ff1") else 1
    fin = lambda k: ["fpe_fin o=f kind=%s" % k] if mac else []

    def use(kind, s):
        a, b = fpe_pair(kind, s)
        return [a] + fin(kind) + [b] + fin(kind)
    # every radix, with strings of several lengths
    i = 0
    for radix in range(2, 37):
        for rep in range(c.q(2, 8)):
            i += 1
            kind = kinds[i % len(kinds)]
            l = fpe_key(d, i) + ["fpe_init o=f c=k radix=%d tw=%s mac=%d" % (radix, hx(d.bytes(c.rng.choice([0, 4, 7, 8, 8, 9, 10, 15, 16, 20, 33]))), mac)]
            for n in (c.rng.randrange(lo, 9), c.rng.randrange(9, 24)):
                l += use(kind, d.text(radix, n))
            cases.append(Case("%s-radix-%d-%d" % (tag, radix, rep), l))
    # every length
    top = c.q(64, 130)
    for n in list(range(lo, top)) + c.q([100, 128, 200, 256, 511, 513], [150, 200, 255, 256, 257, 300, 510, 511, 512, 513, 600, 800]):
        i += 1
        kind = kinds[i % len(kinds)]
        radix = c.rng.choice([2, 8, 10, 10, 10, 12, 16, 26, 32, 36])
        cases.append(Case("%s-len-%d" % (tag, n), fpe_key(d, i) + ["fpe_init o=f c=k radix=%d tw=%s mac=%d" % (radix, hx(d.bytes(c.rng.randrange(0, 18))), mac)] + use(kind, d.text(radix, n)), cost=2000 + 120 * n))
    # every tweak length
    for n in list(range(0, c.q(41, 80))) + [64, 100, 200, 255, 256, 257, 511, 512, 700, 65535, 65536, 65550]:
        i += 1
        kind = kinds[i % len(kinds)]
        radix = c.rng.choice([10, 36, 2, 12])
        cases.append(Case("%s-tweak-%d%s" % (tag, n, "b" if n == 64 else ""), fpe_key(d, i, algs=FPE_ALGS if n < 500 else ["add"]) + ["fpe_init o=f c=k radix=%d tw=%s mac=%d" % (radix, hx(d.bytes(n)), mac)] +
                          use(kind, d.text(radix, c.rng.randrange(2, 20))), cost=2000 + (100 if n < 500 else 8) * n))
    # tweaks and strings that together fill their blocks exactly, or miss that by one
    if kinds[0].startswith("ff1"):
        for radix in c.q([2, 10, 36], [2, 3, 8, 10, 16, 26, 36]):
            for b in (3, 14, 15, 16):
                n = next(n for n in range(2, 400) if -(-gf.bits(radix, n - n // 2) // 8) == b)
                for t in sorted({0, (15 - b) % 16, (16 - b) % 16, 16}):
                    i += 1
                    cases.append(Case("%s-fill-%d-%d-%d" % (tag, radix, b, t), fpe_key(d, i, algs=["aes", "add", "sm4"]) + ["fpe_init o=f c=k radix=%d tw=%s mac=%d" % (radix, hx(d.bytes(t)), mac)] +
                                      use(kinds[0], d.text(radix, n)), cost=2000 + 120 * n))
    # contexts in sequence and side by side
    for j in range(c.q(16, 120)):
        l = fpe_key(d, j) + ["fpe_init o=f c=k radix=10 tw=%s mac=%d" % (hx(d.bytes(8)), mac), "fpe_init o=g c=k radix=%d tw=%s mac=%d" % (c.rng.choice([10, 36, 2]), hx(d.bytes(c.rng.randrange(12))), mac)]
        for _ in range(5):
            o = c.rng.choice("fg"); kind = c.rng.choice(kinds)
            l.append("fpe o=%s kind=%s dir=%s in=%s" % (o, kind, c.rng.choice("ed"), sx(d.text(2, c.rng.randrange(lo, 20)))))
            if mac and c.rng.random() < 0.6:
                l.append("fpe_fin o=%s kind=%s" % (o, kind))
        l += ["free o=f"] + ["fpe o=g kind=%s in=%s" % (kinds[0], sx(d.text(2, 9)))]
        cases.append(Case("%s-seq-%d" % (tag, j), l))
    return cases


@prop("P15")
def p15(c):
    d = Data(c.rng)
    c.model("Kat")
    c.model("Feistel", consts=c.q({"Keys": "{1, 2}"}, {"Radices": "{2, 3}", "Tweaks": "{0, 3, 8, 16}", "Keys": "{1, 2, 3}"}))
    c.run(fpe_cases(c, d, ["ff1"], "f"))


@prop("P16")
def p16(c):
    d = Data(c.rng)
    c.model("Kat")
    c.model("Feistel", consts=c.q({"Keys": "{1, 2}"}, {"Radices": "{2, 3}", "Tweaks": "{0, 3, 8, 16}", "Keys": "{1, 2, 3}"}))
    c.run(fpe_cases(c, d, ["ff3"], "f"))


@prop("P17")
def p17(c):
    d = Data(c.rng)
    c.model("Kat")
    c.model("Feistel", consts=c.q({"Keys": "{1, 2}"}, {"Radices": "{2, 3}", "Tweaks": "{0, 3, 8, 16}", "Keys": "{1, 2, 3}"}))
    cases = fpe_cases(c, d, ["ff1c"], "c", 1) + fpe_cases(c, d, ["ff3g"], "g", 1)
    # what is derived from the encryption of zero (subkeys, hash key), with every bit pattern at its ends
    ends = [0x00, 0x01, 0x02, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xfe, 0xff]
    for i, b in enumerate(c.q(ends, range(256))):
        for t, alg in enumerate(("const", "add", "mix", "mix")):
            k = bytearray(d.bytes(16)); k[0] = b; k[15] = ends[(i * 5 + 3) % len(ends)]
            if alg != "const":        # the toys' image of zero is their key
                k[1:15] = d.rnd(14)
            l = ["ciph o=k alg=%s key=%s" % (alg, hx(k))]
            for kind in ("ff1c", "ff3g"):
                l += ["fpe_init o=f c=k radix=10 tw=%s mac=1" % hx(d.bytes(c.rng.choice([0, 5, 8, 16])))]
                for n in (6, c.rng.choice([16, 17, 18, 32, 33])):
                    l += ["fpe o=f kind=%s dir=%s in=%s" % (kind, "ed"[n % 2], sx(d.text(10, n))), "fpe_fin o=f kind=%s" % kind]
            cases.append(Case("ends-%s%d-%d" % (alg, t, b), l))
    c.run(cases)


@prop("P18")
def p18(c):
    d = Data(c.rng)
    c.model("Kat"); c.model("Feistel")
    cases = []
    # radices outside 2..36 have no context
    for mac in (0, 1):
        for j, r in enumerate([0, 1, 37, 38, 62, 64, 100, 255, 256, 258, 65536, 65546, 2147483647]):
            cases.append(Case("radix-%d-%d" % (mac, r), fpe_key(d, j) + ["fpe_init o=f c=k radix=%d tw=%s mac=%d" % (r, hx(d.bytes(8)), mac), "fpe_init o=g c=k radix=%d tw=%s mac=%d" % (2 + j, hx(d.bytes(8)), mac),
                         "fpe o=g kind=%s in=%s" % (("ff1c" if j % 2 else "ff3g") if mac else ("ff1" if j % 2 else "ff3"), sx(d.text(2, 8)))]))
    al = "0123456789abcdefghijklmnopqrstuvwxyz"
    for kind, mac in (("ff1", 0), ("ff3", 0), ("ff1c", 1), ("ff3g", 1)):
        for radix in range(2, 37):
            good = lambda n: d.text(radix, n)
            l = fpe_key(d, radix, algs=["aes", "sm4", "add"]) + ["fpe_init o=f c=k radix=%d tw=%s mac=%d" % (radix, hx(d.bytes(c.rng.randrange(12))), mac)]
            pool = [chr(x) for x in range(1, 256) if chr(x) not in al[:radix]]
            near = [al[radix]] if radix < 36 else ["{", "Z"]
            near += ["A", "/", ":", "`", "{", "*", " ", al[-1].upper()]
            near = [x for x in near if x not in al[:radix]]
            bad = near[:] if radix % 6 == 0 else c.rng.sample(near, 3)
            bad += c.rng.sample(pool, 2)
            if radix <= 10:
                bad += ["a"]
            for x in bad:
                n = c.rng.choice([1, 2, 3, 6, 11, 30]); p = c.rng.choice([0, n - 1, c.rng.randrange(n)])
                s = good(n); s = s[:p] + x + s[p + 1:]
                l.append("fpe o=f kind=%s dir=%s in=%s" % (kind, c.rng.choice("ed"), s.encode("latin-1").hex()))
            # the shortest strings, and the state of the context after all the refusals
            for n in (0, 1, 2):
                l.append("fpe o=f kind=%s dir=%s in=%s" % (kind, "ed"[(n + radix) % 2], sx(good(n))))
            if mac:
                l.append("fpe_fin o=f kind=%s" % kind)
                l += ["fpe o=f kind=%s dir=e in=%s" % (kind, sx("!" + good(4))), "fpe_fin o=f kind=%s" % kind]
            l.append("fpe o=f kind=%s in=%s" % (kind, sx(al[radix - 1] * 5 + al[0] * 3)))
            cases.append(Case("%s-%d" % (kind, radix), l))
    if c.thorough:
        for kind, mac in (("ff1", 0), ("ff3", 0), ("ff1c", 1), ("ff3g", 1)):
            for radix in (2, 10, 16, 35, 36):
                for lo in range(1, 256, 32):
                    l = fpe_key(d, radix, algs=["add"]) + ["fpe_init o=f c=k radix=%d tw= mac=%d" % (radix, mac)]
                    for x in range(lo, min(256, lo + 32)):
                        for p in (0, 3):
                            s = bytearray(d.text(radix, 4).encode()); s[p] = x
                            l.append("fpe o=f kind=%s in=%s" % (kind, hx(s)))
                    cases.append(Case("all-%s-%d-%d" % (kind, radix, lo), l))
    c.run(cases)


# --------------------------------------------------------- P19..P21 applications
APPS = ["aes", "sm4", "wbaes", "wbsm4"]


def app_new(d, i, o="a", heavy=8):
    """mostly the cheap ciphers"""
    cipher = APPS[2 + i // heavy % 2] if i % heavy == heavy - 1 else APPS[i % 2]
    return ["seed t=%d" % d.seed(), "poison b=%d" % (i * 73 % 256), "app_init o=%s cipher=%s ffx=%s key=%s" % (o, cipher, ["ff1", "ff3"][i // 2 % 2], hx(d.key()))]


def digit_mask(d, text, opens):
    """'*' where opens, anything else elsewhere"""
    style = d.r.randrange(3)
    keep = lambda ch: ch if style == 0 else "0" if style == 1 else d.r.choice("0123456789abcxyzX-. +)")
    return "".join("*" if o else keep(ch) for ch, o in zip(text, opens))


def app_both(what, s, mask=None, o="a"):
    m = "" if mask is None else " mask=" + (mask.hex() if isinstance(mask, bytes) else sx(mask))
    h = s.hex() if isinstance(s, bytes) else sx(s)
    return ["app o=%s what=%s dir=e in=%s%s" % (o, what, h, m), "app o=%s what=%s dir=d in=%s%s" % (o, what, h, m)]


@prop("P19")
def p19(c):
    d = Data(c.rng)
    c.model("AppModel"); c.model("Kat")
    f = c.model("AppModel", "AppHist")
    cases = []
    H = c.histories(f)
    few = [h for h in H if sum(h) <= 2]
    hs = pick(c.rng, few, c.q(24, 100)) + pick(c.rng, H, c.q(160, 2000))
    num = lambda n: d.text(10, n)
    for j in range(0, len(hs), 4):
        l = app_new(d, j // 4)
        for h in hs[j:j + 4]:
            s = num(11)
            l += app_both("phone", s, digit_mask(d, s, h))
        cases.append(Case("phone-%d" % j, l))
    # numbers of other lengths, with and without a mask
    for n in list(range(0, 25)) + [30, 40, 64]:
        l = app_new(d, n)
        for what in ("phone", "idcard"):
            s = num(n)
            l += app_both(what, s) + app_both(what, s, "") + app_both(what, s, digit_mask(d, s, [c.rng.random() < 0.6 for _ in s]))
            if what == "idcard" and n:
                s = num(n - 1) + "X"
                l += app_both(what, s) + app_both(what, s, digit_mask(d, s, [c.rng.random() < 0.6 for _ in s]))
        cases.append(Case("n-%d" % n, l))
    # identity cards
    for j in range(c.q(150, 800)):
        l = app_new(d, j)
        s = num(17) + ("X" if j % 2 else num(1))
        kind = j % 5
        opens = [c.rng.random() < 0.5 for _ in s] if kind < 2 else [i >= 14 for i in range(18)] if kind == 2 else [6 <= i < 14 for i in range(18)] if kind == 3 else [i % 2 == 0 for i in range(18)]
        for last in (True, False):
            opens[17] = last
            l += app_both("idcard", s, digit_mask(d, s, opens))
        l += app_both("idcard", s)
        cases.append(Case("id-%d" % j, l))
    # what is not a number is refused, unless it lies under a kept cell
    for j in range(c.q(30, 200)):
        l = app_new(d, j, heavy=50)
        for what, n in (("phone", 11), ("idcard", 18)):
            s = list(num(n)); p = c.rng.randrange(n - 1); s[p] = c.rng.choice("aXx-+ /:AZ*") if j % 3 else s[p]
            s = "".join(s)
            opens = [c.rng.random() < 0.7 for _ in s]
            l += app_both(what, s) + app_both(what, s, digit_mask(d, s, opens))
            opens[p] = False
            l += app_both(what, s, digit_mask(d, s, opens))
        s = num(10) + "X"
        l += app_both("phone", s) + app_both("idcard", num(9) + "Xx"[j % 2] + num(8)) + app_both("idcard", num(17) + "x") + app_both("idcard", "X" * (j % 4))
        cases.append(Case("bad-%d" % j, l))
    # a mask that is not of the number's length: too short is refused, what is beyond the number does not count
    for j in range(c.q(24, 150)):
        l = app_new(d, j, heavy=50)
        for what, s in (("phone", num(11)), ("idcard", num(18)), ("idcard", num(17) + "X")):
            m = digit_mask(d, s, [c.rng.random() < 0.6 for _ in s])
            for cut in {1, len(s) - 1, c.rng.randrange(1, len(s))}:
                l += app_both(what, s, m[:cut])
            l += app_both(what, s, m + c.rng.choice(["*", "1", "**", "0*1"]))
        cases.append(Case("mask-%d" % j, l))
    # several contexts at work
    for j in range(c.q(12, 80)):
        l = app_new(d, j, "a") + app_new(d, j + 3, "b")
        for _ in range(6):
            s = num(11); t = num(18)
            l.append(c.rng.choice(app_both("phone", s, digit_mask(d, s, [c.rng.random() < 0.7 for _ in s]), c.rng.choice("ab")) + app_both("idcard", t, None, c.rng.choice("ab"))))
        cases.append(Case("two-%d" % j, l))
    c.run(cases)


def cn_text(d, n):
    k = d.r.random()
    code = lambda: d.r.choice([0x4E00, 0x9EFF, 0x4E01, 0x9EFE, 0x4FFF, 0x5000, 0x5F20]) if k < 0.25 else d.r.randrange(0x4E00, 0x9F00)
    return "".join(chr(code()) for _ in range(n))


def cn_mask(d, s, opens):
    other = d.r.random() < 0.4
    return "".join("*" if o else (chr(d.r.randrange(0x4E00, 0x9F00)) if other else ch) for ch, o in zip(s, opens))


@prop("P20")
def p20(c):
    d = Data(c.rng)
    c.model("AppModel"); c.model("Kat")
    f = c.model("AppModel", "AppHist", {"Lens": "{1, 2, 3, 4, 5}"})
    cases = []
    # every mask of the short names
    hs = c.histories(f)
    for j in range(0, len(hs), 3):
        l = app_new(d, j // 3)
        for h in hs[j:j + 3]:
            s = cn_text(d, len(h))
            l += app_both("cn", s, cn_mask(d, s, h))
        cases.append(Case("mask-%d" % j, l, cost=6000))
    for n in list(range(0, 16)) + c.q([20, 30], [20, 30, 40, 64]):
        s = cn_text(d, n)
        l = app_new(d, n) + app_both("cn", s) + app_both("cn", s, "")
        if n:
            l += app_both("cn", s, cn_mask(d, s, [c.rng.random() < 0.5 for _ in s]))
        cases.append(Case("n-%d" % n, l, cost=2000 + 600 * n))
    # the ends of the range, and every position in a digit
    for j in range(c.q(20, 300)):
        l = app_new(d, j)
        for _ in range(3):
            l += app_both("cn", "".join(chr(0x4E00 + x) for x in c.rng.sample([0, 11, 12, 143, 144, 1727, 1728, 20735, 20734, 63, 64, 4095, 4096, 0x200, 0x1FF], c.rng.randrange(1, 4))))
        cases.append(Case("edge-%d" % j, l, cost=9000))
    # what the alphabet cannot represent is refused
    bads = [b"a", b"ab", b"abc", b"abcd", "中a".encode(), "a中".encode(), "中文".encode()[:-1], "中文".encode()[:-2], "中文".encode()[1:], chr(0x9F00).encode(), chr(0x9FFF).encode(), chr(0x4DFF).encode(),
            chr(0x3400).encode(), chr(0xFFFD).encode(), chr(0x800).encode(), "é".encode(), "éa".encode(), "😀".encode(), "中😀".encode(), "。".encode(), b"\xe4\xb8\xc0", b"\xe4\x38\xad", b"\xe4\xb8\x2d",
            b"\xe4\xf8\xad", b"\xf4\xb8\xad", b"\xd4\xb8\xad", b"\xff\xff\xff", b"\xef\xbf\xbf", b"\x80\x80\x80", "12中".encode(), "张三1".encode(), "·中".encode(), b"\xe4", b"\xe4\xb8"]
    for j in range(0, len(bads), 4):
        for w in (0, 1):
            l = app_new(d, j + w, heavy=50)
            for b in bads[j:j + 4]:
                if w == 0:
                    l += app_both("cn", b) + app_both("cn", "李".encode() + b + "王".encode())
                else:
                    l += app_both("cn", b, b"*" * max(1, len(b) // 3)) + app_both("cn", "李".encode() + b, "*".encode() + b)
            l += app_both("cn", "欧阳修")
            cases.append(Case("bad-%d-%d" % (j, w), l))
    # masks that do not fit the text
    for j in range(c.q(20, 120)):
        n = c.rng.randrange(1, 6); s = cn_text(d, n)
        l = app_new(d, j, heavy=50)
        for m in (b"*" * (n + 1), b"*" * max(0, n - 1), b"*" * n + "中".encode(), cn_mask(d, s, [False] * n).encode(), cn_mask(d, s, [False] * n).encode()[:-1], b"*" * (3 * n),
                  b"*" * (n - 1) + b"\xe4", b"*" * (n - 1) + b"\xe4\xb8", b"*" * n, "中".encode() * (n + 1), "中".encode() * (n - 1) + b"*"):
            if m == b"":
                continue
            l += app_both("cn", s, m)
        cases.append(Case("fit-%d" % j, l))
    c.run(cases)


@prop("P21")
def p21(c):
    d = Data(c.rng)
    c.model("AppModel"); c.model("Kat")
    cases = []
    names = ["aes", "sm4", "wbaes", "wbsm4", "AES", "des", "sm4x", "sm", "a", "wbsm", "wbaesx", "3"]
    ffxs = ["ff1", "ff3", "ff2", "FF1", "ff", "x", "ff1x", "ff3-1"]
    for i, a in enumerate(names):
        for j, ffx in enumerate(ffxs):
            l = ["seed t=%d" % d.seed(), "poison b=%d" % ((i * 8 + j) * 37 % 256), "app_init o=a cipher=%s ffx=%s key=%s" % (a, ffx, hx(d.key()))]
            s = d.text(10, 11); t = d.text(10, 17) + "X"; u = cn_text(d, 2)
            l += pick(c.rng, app_both("phone", s) + app_both("phone", s, "1*****5****"), 2) + pick(c.rng, app_both("idcard", t) + app_both("idcard", t, "******19490101****"), 2) + pick(c.rng, app_both("cn", u) + app_both("cn", u, "张*"), 2)
            cases.append(Case("sel-%s-%s" % (a, ffx), l))
    # keys of every length; two contexts with the same key agree, with different keys do what each key says
    for n in range(0, 41):
        for a in (["aes", "sm4"] if n % 4 else APPS):
            k = d.rnd(n)
            l = ["seed t=%d" % d.seed(), "poison b=%d" % (0xA5 if n % 2 else 0x5A), "app_init o=a cipher=%s ffx=%s key=%s" % (a, ["ff1", "ff3"][n % 2], hx(k)),
                 "app_init o=b cipher=%s ffx=%s key=%s" % (a.replace("wb", ""), ["ff1", "ff3"][n % 2], hx(k))]
            s = d.text(10, 11)
            for o in "ab":
                l += ["app o=%s what=phone dir=%s in=%s" % (o, "ed"[n % 2], sx(s)), "app o=%s what=cn dir=%s in=%s" % (o, "de"[n % 2], sx(cn_text(d, 2)))]
            cases.append(Case("key-%s-%d" % (a, n), l))
    c.run(cases)


# ------------------------------------------------------ P22 white-box key transfer
def key_history(d, h, tag, via):
    """a KeyHist behaviour; via "f" through files, "b" through byte streams, "m" mixed"""
    r = d.r
    l = ["seed t=%d" % d.seed(), "poison b=%d" % r.choice([0, 0xAA, 0x01, 0xFF])]
    live, where = set(), {}
    alg, stored, cut = {}, {}, set()       # the direction of each context, and of each stored key; stored keys that no longer load

    def fresh(cx):
        if cx not in live:
            alg[cx] = r.choice(["wbsm4", "wbsm4d"])
            l.append("ctx_new o=c%d alg=%s dummy=%d" % (cx, alg[cx], r.randrange(4)))
            live.add(cx)
    for op, a, b in h:
        if op == "key":
            re = a in live and r.random() < 0.5   # a context keyed again keeps the direction it has, by creation or by loading
            if not re:
                alg[a] = r.choice(["wbsm4", "wbsm4d"])
            l.append("ciph o=c%d alg=%s dummy=%d key=%s%s" % (a, alg[a], r.randrange(4), hx(d.key()), " re=2" if re else ""))
            live.add(a)
        elif op == "out":
            w = via if via != "m" else r.choice("fb")
            where[b] = w; stored[b] = alg[a]; cut.discard(b)
            l.append("k2f o=c%d p=k%d" % (a, b) if w == "f" else "k2b o=c%d s=s%d" % (a, b))
        elif op == "cut":
            cut.add(a)
            if where.get(a) == "f":
                l.append(r.choice(["kcut p=k%d at=-1" % a, "kcut p=k%d pm=%d" % (a, r.randrange(1000)), "kcut p=k%d at=%d" % (a, r.choice([0, 1, 3, 4, 7, 8, 9, 11, 12, 100]))]))
            else:
                where[a] = None       # a byte stream carries no length to cut
        elif op == "in":
            if where.get(b) is None:
                continue
            fresh(a)
            l.append(("f2k o=c%d p=k%d" % (a, b) if where[b] == "f" else "b2k o=c%d s=s%d" % (a, b)) + " alg=" + stored[b])
            if b not in cut:
                alg[a] = stored[b]
        else:
            if a not in live:
                continue
            l.append("blk o=c%d in=%s%s" % (a, hx(d.bytes(32)), " alias=1" if r.random() < 0.3 else ""))
    return Case(tag, l, cost=3000 + 400 * len(l))


def key_junk(d, i, tag):
    """stored keys that are none: another name, an impossible number of rounds, a length that does not fit"""
    r = d.r; w = lambda x: (x % (1 << 32)).to_bytes(4, "little").hex()
    alg, dummy = ["wbsm4", "wbsm4d"][i % 2], i % 3
    rounds = 32 + 4 * dummy
    l = ["seed t=%d" % d.seed(), "ciph o=a alg=%s dummy=%d key=%s" % (alg, dummy, hx(d.key())), "ciph o=b alg=%s dummy=%d key=%s" % (["wbsm4d", "wbsm4"][i // 2 % 2], i % 4, hx(d.key()))]
    bad = [0, 1, 4, 28, 31, 33, 34, 35, rounds + 1, rounds - 1, rounds + 2, rounds + 4, 4096, 4100, 1 << 20, 0x7ffffffc, 0x7fffffff, -1, -4, -32, -36, 0x80000000, 0x80000020]
    for j in range(4):
        l += ["k2f o=a p=k", "kset p=k at=16 b=%s" % w(r.choice(bad)), "f2k o=b p=k", "blk o=b in=%s" % hx(d.bytes(16))]
        l += ["k2b o=a s=s", "kset s=s at=4 b=%s" % w(r.choice(bad)), "b2k o=b s=s", "blk o=b in=%s" % hx(d.bytes(16))]
    l += ["k2f o=a p=k", "kset p=k at=%d b=%s" % (r.randrange(16), r.choice(["00", "0a", "01", "78"]) if i % 3 else "444444"), "f2k o=b p=k"]
    l += ["k2b o=a s=s", "kset s=s at=0 b=%s" % w(r.choice([0, 1, 12, 1 << 20, 0x7fffffff, -1])), "b2k o=b s=s", "blk o=b in=%s" % hx(d.bytes(16))]
    l += ["k2f o=a p=k", "f2k o=b p=k", "blk o=b in=%s" % hx(d.bytes(16))]
    return Case(tag, l, cost=12000)


@prop("P22")
def p22(c):
    d = Data(c.rng)
    c.model("KeyTransfer"); c.model("Kat"); c.model("WbModel")
    f = c.model("KeyTransfer", "KeyHist")
    cases = []
    H = c.histories(f)
    cut = [h for h in H if any(x[0] == "cut" for x in h)]
    hs = pick(c.rng, cut, c.q(60, 500)) + pick(c.rng, [h for h in H if h not in cut], c.q(60, 500))
    for i, h in enumerate(hs):
        cases.append(key_history(d, h, "h%d" % i, "ffbm"[i % 4]))
    # every pair of table kinds and dummy-round counts, both ways of transfer, into fresh and into used contexts
    i = 0
    for ea in ("wbsm4", "wbsm4d"):
        for eb in ("wbsm4", "wbsm4d"):
            for da in range(4):
                for db in range(4):
                    i += 1
                    if not c.thorough and (i + da * db) % 2:
                        continue
                    l = ["seed t=%d" % d.seed(), "poison b=%d" % (i * 37 % 256), "ciph o=a alg=%s dummy=%d key=%s" % (ea, da, hx(d.key()))]
                    l += ["ciph o=b alg=%s dummy=%d key=%s" % (eb, db, hx(d.key()))] if i % 3 == 0 else ["ctx_new o=b alg=%s dummy=%d" % (eb, db)]
                    x = hx(d.bytes(48))
                    l += ["k2f o=a p=k", "f2k o=b p=k"] if i // 2 % 2 else ["k2b o=a s=s", "b2k o=b s=s"]
                    l += ["blk o=a in=%s" % x, "blk o=b in=%s" % x]
                    # and on to a third, by the other way
                    l += ["ctx_new o=z alg=%s dummy=%d" % (ea, db)] + (["k2b o=b s=t", "b2k o=z s=t"] if i // 2 % 2 else ["k2f o=b p=q", "f2k o=z p=q"]) + ["blk o=z in=%s" % x]
                    cases.append(Case("pair-%d" % i, l, cost=8000))
    # many dummy rounds
    for i, n in enumerate([15, 63, 64, 127, 200, 300] + ([600, 1016] if c.thorough else [])):
        cases.append(Case("many-%d" % n, ["seed t=%d" % d.seed(), "ciph o=a alg=%s dummy=%d key=%s" % (["wbsm4", "wbsm4d"][i % 2], n, hx(d.key())),
                     "ciph o=b alg=%s dummy=%d key=%s" % (["wbsm4", "wbsm4d"][i // 2 % 2], i, hx(d.key())), "k2f o=a p=k", "k2b o=a s=s"] +
                     [["f2k o=b p=k", "b2k o=b s=s"][i % 2], "blk o=b in=%s" % hx(d.bytes(32)), "ctx_new o=z alg=wbsm4 dummy=0", ["f2k o=z p=k", "b2k o=z s=s"][1 - i % 2], "blk o=z in=%s" % hx(d.bytes(32))], cost=20000))
    # a stored key cut at any place is refused and the context keeps the key it had
    for i in range(c.q(16, 100)):
        alg = ["wbsm4", "wbsm4d"][i % 2]
        l = ["seed t=%d" % d.seed(), "ciph o=a alg=%s dummy=%d key=%s" % (alg, i % 3, hx(d.key())), "ciph o=b alg=%s dummy=%d key=%s" % (["wbsm4d", "wbsm4"][i // 2 % 2], i % 4, hx(d.key()))]
        for j in range(5):
            at = ["at=-1", "at=%d" % c.rng.randrange(0, 40), "pm=%d" % c.rng.randrange(1000), "at=-%d" % c.rng.randrange(2, 5000), "pm=500"][j]
            l += ["k2f o=a p=k%d" % j, "kcut p=k%d %s" % (j, at), "f2k o=b p=k%d" % j, "blk o=b in=%s" % hx(d.bytes(16))]
        l += ["f2k o=b p=missing obad=1", "blk o=b in=%s" % hx(d.bytes(16)), "k2f o=a p=ok", "f2k o=b p=ok", "blk o=b in=%s" % hx(d.bytes(16))]
        cases.append(Case("cut-%d" % i, l, cost=9000))
    # what is no stored key is refused as well
    for i in range(c.q(12, 80)):
        cases.append(key_junk(d, i, "junk-%d" % i))
    # a key that cannot be stored is reported
    for i in range(c.q(8, 50)):
        l = ["seed t=%d" % d.seed(), "ciph o=a alg=%s dummy=%d key=%s" % (["wbsm4", "wbsm4d"][i % 2], i % 3, hx(d.key())), "k2f o=a p=no/where obad=1", "fmut p=full how=full", "k2f o=a p=full obad=1", "ctx_new o=b alg=wbsm4 dummy=%d" % (i % 2)]
        for sh in (1, c.rng.randrange(2, 5000), -c.rng.randrange(1, 999), -1, 4096):
            l += ["k2f o=a p=s short=%d" % sh]
        l += ["ciph o=b alg=wbsm4 dummy=0 key=%s" % hx(d.key()), "f2k o=b p=s", "blk o=b in=%s" % hx(d.bytes(16)), "blk o=a in=%s" % hx(d.bytes(16)), "k2f o=a p=s", "f2k o=b p=s", "blk o=b in=%s" % hx(d.bytes(16))]
        cases.append(Case("full-%d" % i, l, cost=9000))
    # transferred keys in the modes
    for i in range(c.q(10, 60)):
        k, iv = hx(d.key()), hx(d.bytes(16)); n = c.rng.choice([0, 5, 16, 31, 40])
        tr = lambda a, b, j: ["k2f o=%s p=k%d" % (a, j), "f2k o=%s p=k%d" % (b, j)] if (i + j) % 2 else ["k2b o=%s s=s%d" % (a, j), "b2k o=%s s=s%d" % (b, j)]
        l = ["seed t=%d" % d.seed(), "ciph o=e alg=wbsm4 dummy=%d key=%s" % (i % 4, k), "ciph o=d alg=wbsm4d dummy=%d key=%s" % (i % 3, k),
             "ctx_new o=x alg=wbsm4 dummy=%d" % (i % 2), "ctx_new o=y alg=wbsm4d dummy=%d" % (i % 3)] + tr("e", "x", 1) + tr("d", "y", 2)
        m = hx(d.bytes(n))
        l += ["cbc o=x dir=e in=%s iv=%s" % (m, iv), "cbc o=y dir=d in=%s iv=%s" % (hx(d.bytes(32)), iv), "cbcrt o=x o2=y in=%s iv=%s" % (m, iv),
              "gcm_init o=g c=x kind=gcm", "gcm_iv o=g iv=%s" % hx(d.bytes(12)), "gcm_aad o=g aad=%s" % hx(d.bytes(i)), "gcm_data o=g in=%s" % hx(d.bytes(40)), "gcm_fin o=g n=16"]
        cases.append(Case("mode-%d" % i, l, cost=9000))
    c.run(cases)


# ----------------------------------------------------------- P23 the MySQL plug-in
def udf_row(d, o, cls, ok, nargs, modes=("phone", "idcard", "name", "address")):
    r = d.r
    mode = r.choice(modes) if cls == 2 else {1: "name", 4: r.choice(["idcard", "address"])}[cls] if cls != 1 or r.random() < 0.5 else "phone"
    if mode == "phone":
        s = d.text(10, 11).encode()
    elif mode == "idcard":
        s = (d.text(10, 17) + r.choice("X0123456789")).encode()
    else:
        n = {1: r.randrange(1, 4), 2: r.randrange(2, 6), 4: r.randrange(6, 16)}[cls]
        s = cn_text(d, n).encode()
    digits = mode in ("phone", "idcard")
    if digits:
        m = digit_mask(d, s.decode(), [r.random() < 0.6 for _ in s]).encode()
    else:
        t = s.decode(); m = cn_mask(d, t, [r.random() < 0.6 for _ in t]).encode()
    x = ""
    if not ok:
        w = r.randrange(8)
        if w == 0:
            s = s[:-1]; m = m[:len(s)] if digits else m
        elif w == 1:
            s = s + (b"1" if digits else "中".encode())
        elif w == 2:
            s = b""
        elif w == 3:
            mode = r.choice(["", "email", "Phone", "phon", "phonex", "names", "x"])
        elif w == 4:
            x = " null=%d" % r.choice([1, 2, 1, 3] + ([4] if nargs == 3 else []))
        elif w == 5:
            p = r.randrange(len(s)); s = s[:p] + b"\x00" + s[p + 1:]
        elif w == 6:
            m = m[:-1] if r.random() < 0.5 else m + b"*"
        else:
            p = r.randrange(len(s)); s = s[:p] + r.choice([b"a", b"-", b"\xff", b"*"]) + s[p + 1:]
    if mode == "":
        mode = "none"
    return "udf o=%s plain=%s mode=%s sample=%s%s" % (o, s.hex(), mode, m.hex(), x)


def udf_cases(c, d, tag, n, f):
    cases = []
    for i, h in enumerate(pick(c.rng, c.histories(f), n)):
        l = ["poison b=%d" % (i * 73 % 256)]
        nargs = 2
        for x in h:
            if x[0] == "init":
                nargs = x[1]
                l.append("udf_init o=s nargs=%d%s" % (nargs, " max=60 types=%s" % c.rng.choice(["isss", "siss"]) if False else ""))
            elif x[0] == "row":
                l.append(udf_row(d, "s", x[1], x[2], nargs))
            else:
                l.append("udf_end o=s")
        cases.append(Case("%s-h%d" % (tag, i), l))
    return cases


@prop("P23")
def p23(c):
    d = Data(c.rng)
    c.model("UdfModel"); c.model("AppModel"); c.model("Kat")
    f = c.model("UdfModel", "UdfHist")
    for v in (5, 8):
        cases = udf_cases(c, d, "v%d" % v, c.q(60, 700), f)
        # each mode on its own, with and without samples, good and bad
        for i in range(c.q(24, 200)):
            nargs = 2 + i % 2
            l = ["poison b=%d" % (i * 37 % 256), "udf_init o=s nargs=%d" % nargs]
            for _ in range(8):
                l.append(udf_row(d, "s", c.rng.choice([1, 2, 2, 4]), c.rng.random() < 0.6, nargs))
            l += ["udf_end o=s", "udf_init o=s nargs=%d" % (5 - nargs), udf_row(d, "s", 2, True, 5 - nargs), "udf_end o=s"]
            cases.append(Case("v%d-m%d" % (v, i), l))
        # two statements at once
        for i in range(c.q(10, 80)):
            l = ["udf_init o=s nargs=2", "udf_init o=t nargs=3"]
            for _ in range(8):
                o = c.rng.choice("st")
                l.append(udf_row(d, o, c.rng.choice([1, 2, 4]), c.rng.random() < 0.8, 2 if o == "s" else 3))
            l += ["udf_end o=s", udf_row(d, "t", 2, True, 3), "udf_end o=t"]
            cases.append(Case("v%d-two-%d" % (v, i), l))
        # wrong numbers and types of arguments
        for n in (0, 1, 2, 3, 4, 5, 7):
            cases.append(Case("v%d-args-%d" % (v, n), ["udf_init o=s nargs=%d" % n] + ([udf_row(d, "s", 2, True, n), "udf_end o=s"] if n in (2, 3) else [])))
        for t in ("is", "si", "ii", "iss", "sis", "ssi", "iii"):
            cases.append(Case("v%d-types-%s" % (v, t), ["udf_init o=s nargs=%d types=%s" % (len(t), t), "udf_init o=t nargs=2", udf_row(d, "t", 2, True, 2)]))
        # a row may be longer than the statement announced, and long
        for i, n in enumerate([1, 2, 5, 15, 20, 40, 60, 84, 85, 86, 100]):
            s = cn_text(d, n)
            cases.append(Case("v%d-long-%d" % (v, n), ["udf_init o=s nargs=3 max=%d" % (3 * n), "udf o=s plain=%s mode=address sample=%s" % (sx(s), sx(cn_mask(d, s, [j % 3 != 1 for j in range(n)]))),
                         "udf o=s plain=%s mode=name sample=%s" % (sx(s[:1]), sx(s[:1])), "udf_end o=s", "udf_init o=s nargs=2 max=%d" % (3 * n), "udf o=s plain=%s mode=name" % sx(s),
                         "udf o=s plain=%s mode=address" % sx(s[:max(1, n // 2)]), "udf_end o=s"], cost=3000 + 400 * n))
        c.run(cases, "udf%d" % v, label="udf%d" % v)


# ------------------------------------------------------- P24 key store, padding
@prop("P24")
def p24(c):
    d = Data(c.rng)
    c.model("CbcModel"); c.model("Kat")
    cases = []
    # padding: every length, ends that look like padding of every shape
    for n in range(0, c.q(70, 140)):
        l = ["poison b=%d" % (n * 37 % 256)]
        x = d.rnd(n)
        l += ["pad fn=%s in=%s" % (fn, hx(x)) for fn in ("key7", "key0", "merge", "mlen", "sep", "slen")]
        for _ in range(c.q(4, 20)):
            b = bytearray(d.rnd(n)); k = c.rng.randrange(0, 20); m = c.rng.choice([k, k, max(0, k - 1), 1, 16, n])
            for i in range(min(m, n)):
                b[n - 1 - i] = k
            l += ["pad fn=sep in=%s" % hx(b), "pad fn=slen in=%s" % hx(b)]
        cases.append(Case("pad-%d" % n, l))
    for k in range(0, 33):
        for blocks in (1, 2):
            n = 16 * blocks; l = []
            for m in range(0, n + 1):
                b = bytearray(d.rnd(n))
                for i in range(m):
                    b[n - 1 - i] = k
                if m < n:
                    b[n - 1 - m] = (k + 1 + c.rng.randrange(255)) % 256
                    if b[n - 1 - m] == k:
                        b[n - 1 - m] ^= 1
                l += ["pad fn=%s in=%s" % (c.rng.choice(["sep", "slen"]), hx(b))]
            cases.append(Case("strip-%d-%d" % (k, blocks), l))
    # key store
    for n in list(range(0, 40)) + [64, 100, 255, 256, 257, 1000, 4096, 5000]:
        x = d.rnd(n)
        l = ["fput p=keep b=0102", "ks_put p=k in=%s" % hx(x), "ks_get p=k n=%d" % n]
        l += ["ks_get p=k n=%d" % m for m in {n // 2, max(0, n - 1), n + 1, n + 16}]
        y = d.rnd(c.rng.randrange(0, n + 1))        # a shorter key replaces the longer one
        l += ["ks_put p=k in=%s" % hx(y), "ks_get p=k n=%d" % len(y), "ks_get p=k n=%d" % n]
        l += ["ks_get p=none n=%d" % n, "fmut p=dir how=mkdir", "ks_get p=dir n=%d" % max(n, 1), "ks_put p=dir in=%s obad=1" % hx(x), "ks_put p=no/where in=%s obad=1" % hx(x)]
        if n:
            l += ["ks_put p=k2 in=%s lim=%d" % (hx(x), c.rng.randrange(n)), "ks_put p=k2 in=%s lim=%d" % (hx(x), n - 1), "ks_put p=k2 in=%s lim=%d" % (hx(x), n), "ks_get p=k2 n=%d" % n,
                  "fmut p=full how=full", "ks_put p=full in=%s obad=1" % hx(x)]
            l += ["fmut p=k2 how=trunc at=%d" % c.rng.randrange(n), "ks_get p=k2 n=%d" % n]
        cases.append(Case("ks-%d" % n, l))
    # several keys side by side
    for i in range(c.q(10, 60)):
        l, ks = [], {}
        for _ in range(10):
            p = c.rng.choice("abc")
            if c.rng.random() < 0.5 or p not in ks:
                ks[p] = c.rng.choice([0, 1, 16, 24, 32, 33]); l.append("ks_put p=%s in=%s" % (p, hx(d.rnd(ks[p]))))
            else:
                l.append("ks_get p=%s n=%d" % (p, c.rng.choice([ks[p], ks[p], 16, 32])))
        cases.append(Case("ksn-%d" % i, l))
    c.run(cases)


# --------------------------------------------------------------- P25 memory safety
@prop("P25")
def p25(c):
    """everything once more with the library compiled so that any access outside an object stops the process"""
    d = Data(c.rng); g = Gcm(d)
    c.model("CbcModel"); c.model("Kat"); c.model("FileModel")
    c.pool.submit(c.exe, "asan")
    f1 = c.model("GcmModel", "GcmHist", {"Depth": 6}); f3 = c.model("FileModel", "FileHist", {"MaxMut": 1}); f4 = c.model("UdfModel", "UdfHist"); f5 = c.model("KeyTransfer", "KeyHist")
    cases = []
    poison = lambda i: ["seed t=%d" % d.seed(), "poison b=%d" % (i * 73 % 256)]
    # keys of every length into every cipher
    for n in list(range(0, 41)) + [64, 300]:
        algs = ["aes", "sm4", ["wbaes", "wbsm4", "wbsm4d", "sewbsm4", "sewbsm4d"][n % 5]]
        l = poison(n)
        for j, a in enumerate(algs):
            l += ["ciph o=k%d alg=%s key=%s%s" % (j, a, hx(d.rnd(n)), " dummy=%d" % (n % 4) if a.startswith("wbsm4") else ""), "blk o=k%d in=%s" % (j, hx(d.bytes(32))), "blk o=k%d in=%s alias=1" % (j, hx(d.bytes(16)))]
        if n % 4 == 0:
            l += ["ee_key o=t key=%s" % hx(d.rnd(n)), "mask_key o=u o2=v key=%s" % hx(d.rnd(n))]
        cases.append(Case("key-%d" % n, l))
    # CBC: every length, exact and too small capacities, in place
    for n in range(0, c.q(50, 100)):
        up = (n + 15) // 16 * 16; iv = hx(d.bytes(16))
        l = poison(n) + ["ciph o=k alg=%s key=%s" % (["aes", "sm4"][n % 2], hx(d.bytes(16)))]
        for al in (0, 1):
            l += ["cbc o=k dir=e in=%s iv=%s alias=%d cap=%d" % (hx(d.bytes(n)), iv, al, up), "cbc o=k dir=d in=%s iv=%s alias=%d" % (hx(d.bytes(n)), iv, al)]
        if n:
            l += ["cbc o=k dir=e in=%s iv=%s cap=%d" % (hx(d.bytes(n)), iv, x) for x in sorted({0, n - 1, max(0, up - 16), up - 1})]
            l += ["cbc o=k dir=d in=%s iv=%s cap=%d" % (hx(d.bytes(up)), iv, x) for x in sorted({0, up - 1, up - 16})]
        l += ["pad fn=%s in=%s" % (fn, hx(d.rnd(n))) for fn in ("key7", "key0", "merge", "mlen", "sep", "slen")]
        cases.append(Case("cbc-%d" % n, l))
    # padding of every value at the end of a block
    for k in list(range(0, 34)) + [64, 127, 128, 200, 255]:
        l = []
        for n in (16, 32, 1, 5):
            l += ["pad fn=%s in=%s" % (fn, hx(d.rnd(n - 1) + bytes([k]))) for fn in ("sep", "slen")] + ["pad fn=sep in=%s" % hx(bytes([k]) * n)]
        cases.append(Case("strip-%d" % k, l))
    # GCM in all its forms
    grid = gcm_grid(c, d, mk_plain(d, ["aes", "sm4", "add"]), None, "g") + gcm_grid(c, d, mk_plain(d, ["aes", "sm4", "add"]), None, "p", par=True)
    grid += gcm_grid(c, d, mk_table(d, "ee"), None, "e") + [Case(x.id, by_role(x.lines)) for x in gcm_grid(c, d, mk_table(d, "mask"), None, "m")]
    cases += grid
    for i, h in enumerate(pick(c.rng, c.histories(f1), c.q(50, 500))):
        cases.append(Case("hist-%d" % i, poison(i) + [gcm_key(d, ["aes", "sm4", "add"][i % 3], "k"), "gcm_init o=g c=k kind=gcm"] + g.history(h, {1: "g"}, par=0.3)))
    # files: good, mutilated, cut, garbage
    for i, h in enumerate(pick(c.rng, c.histories(f3), c.q(50, 400))):
        cases.append(file_history(d, h, ["aes", "ee", "add", "sm4", "mask"][i % 5], "file-%d" % i))
    for i, n in enumerate([0, 1, 15, 16, 17, 23, 24, 25, 39, 40, 41, 127, 128, 129, 152, 153, 255, 256, 257, 300]):
        kind = ["aes", "ee", "sm4", "mask", "add"][i % 5]; iv = d.bytes(12)
        b = bytearray(d.rnd(n))
        l = poison(i) + file_pair(d, kind) + ["fput p=m b=%s" % hx(b)] + prep("w", iv) + ["fenc o=w inp=m outp=e"] + prep("r", iv) + ["fdec o=r inp=e outp=o"] + prep("r", iv) + ["fdec o=r inp=m outp=o"]
        for size in (0, 1, n, n + 1, max(0, n - 24), 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 24):
            if n >= 24:
                b[16:24] = size.to_bytes(8, "little")
                l += ["fput p=j b=%s" % hx(b)] + prep("r", iv) + ["fdec o=r inp=j outp=o"]
        l += prep("w", iv) + ["fenc o=w inp=none outp=e"] + prep("r", iv) + ["fdec o=r inp=none outp=o"] + prep("w", iv) + ["fenc o=w inp=m outp=no/where obad=1"] + prep("r", iv) + ["fdec o=r inp=e outp=no/where obad=1"]
        cases.append(Case("junk-%d" % i, l))
    # SM3
    for n in list(range(0, 140)) if c.thorough else list(range(0, 140, 3)) + [55, 56, 63, 64, 65, 119, 120, 127, 128]:
        m = d.bytes(n); k = c.rng.randrange(n + 1)
        if not any(x.id == "sm3-%d" % n for x in cases):
            cases.append(Case("sm3-%d" % n, poison(n) + ["sm3 in=%s" % hx(m), "sm3_init o=h", "sm3_upd o=h in=%s" % hx(m[:k]), "sm3_upd o=h in=%s" % hx(m[k:]), "sm3_fin o=h"]))
    # format-preserving encryption: every radix, tweak and string length, good and bad strings
    i = 0
    for radix in list(range(2, 37)):
        for kind, mac in (("ff1", 0), ("ff3", 0), ("ff1c", 1), ("ff3g", 1)):
            i += 1
            l = poison(i) + [gcm_key(d, ["aes", "sm4", "add"][i % 3], "k"), "fpe_init o=f c=k radix=%d tw=%s mac=%d" % (radix, hx(d.rnd(i % 35)), mac)]
            for n in (0, 1, 2, 3, (i * 7) % 40 + 2):
                l += ["fpe o=f kind=%s dir=%s in=%s" % (kind, "ed"[(n + i) % 2], sx(d.text(radix, n)))]
            l += ["fpe o=f kind=%s in=%s" % (kind, hx(d.rnd(9).replace(b"\0", b"x")))] + (["fpe_fin o=f kind=%s" % kind] if mac else []) + ["free o=f"]
            cases.append(Case("fpe-%s-%d" % (kind, radix), l))
    for n in c.q([60, 129], [50, 60, 64, 100, 128, 129, 200, 256]):
        for kind, mac in (("ff1", 0), ("ff3", 0), ("ff1c", 1), ("ff3g", 1)):
            for radix in (2, 10, 36):
                cases.append(Case("fpel-%s-%d-%d" % (kind, n, radix), poison(n) + [gcm_key(d, "add", "k"), "fpe_init o=f c=k radix=%d tw=%s mac=%d" % (radix, hx(d.rnd(n)), mac)] + fpe_pair(kind, d.text(radix, n))))
    # the applications
    for n in range(0, 26):
        l = app_new(d, n, heavy=20)
        for what in ("phone", "idcard"):
            s = d.text(10, n)
            l += app_both(what, s) + app_both(what, s, digit_mask(d, s, [c.rng.random() < 0.6 for _ in s]))
        if n < 12:
            s = cn_text(d, n)
            l += app_both("cn", s) + (app_both("cn", s, cn_mask(d, s, [c.rng.random() < 0.5 for _ in s])) if n else [])
            s = s.encode()
            l += app_both("cn", s[:-1] if s else b"\xe4") + app_both("cn", s, b"*" * (n + 1)) + app_both("cn", s, b"*" * n + b"\xe4") + app_both("cn", s + b"\xf0") + app_both("cn", s[:-2] if s else b"\xe4\xb8")
            l += app_both("cn", s, s[:-1] if n else b"\xe4") + (app_both("cn", s, b"*" * (n - 1) + b"\xe4\xb8") if n else [])
        cases.append(Case("app-%d" % n, l))
    # stored keys
    for i, h in enumerate(pick(c.rng, c.histories(f5), c.q(20, 150))):
        cases.append(key_history(d, h, "kt-%d" % i, "ffbm"[i % 4]))
    for i in range(c.q(6, 40)):
        cases.append(key_junk(d, i, "junkkey-%d" % i))
    for i in range(c.q(4, 24)):
        # a key of fewer rounds than it was stored with, of another direction, of other tables: taken or not, it must do no harm
        l = poison(i) + ["ciph o=a alg=%s dummy=%d key=%s" % (["wbsm4", "wbsm4d"][i % 2], 2 + i % 2, hx(d.key())), "ciph o=b alg=wbsm4 dummy=%d key=%s" % (i % 3, hx(d.key()))]
        for at, b in ((16, "20000000"), (16, "24000000"), (20, "%02x000000" % (i % 5)), (20, "ffffffff"), (24 + c.rng.randrange(9 << 14), d.rnd(40).hex())):
            l += ["k2f o=a p=k", "kset p=k refuse=0 at=%d b=%s" % (at, b), "f2k o=b p=k", "blk o=b in=%s" % hx(d.bytes(16)), "k2f o=b p=k2", "ctx_new o=z alg=wbsm4 dummy=0", "f2k o=z p=k2", "free o=z"]
        cases.append(Case("altkey-%d" % i, l))
    for n in (0, 1, 15, 16, 17, 32, 100):
        cases.append(Case("ks-%d" % n, ["ks_put p=k in=%s" % hx(d.rnd(n)), "ks_get p=k n=%d" % n, "ks_get p=k n=%d" % (n + 1), "ks_get p=none n=%d" % n, "ks_get p=k n=%d" % (n // 2)]))
    c.run(cases, "asan", label="mem")
    for v in (5, 8):
        cases = udf_cases(c, d, "v%d" % v, c.q(25, 250), f4)
        for i, n in enumerate([1, 5, 20, 60, 84, 85, 86, 100]):
            s = cn_text(d, n)
            cases.append(Case("v%d-long-%d" % (v, n), ["udf_init o=s nargs=3 max=%d" % (3 * n), "udf o=s plain=%s mode=address sample=%s" % (sx(s), sx(cn_mask(d, s, [j % 3 != 1 for j in range(n)]))), "udf_end o=s",
                         "udf_init o=s nargs=2 max=%d" % (3 * n), "udf o=s plain=%s mode=name" % sx(s), "udf o=s plain=%s mode=phone" % sx(d.text(10, 3 * n)), "udf o=s plain=%s mode=idcard" % sx(d.text(10, 3 * n)), "udf_end o=s"], cost=3000 + 400 * n))
        c.run(cases, "udf%d-asan" % v, label="memudf%d" % v)


# ------------------------------------------------------- P26 failing block ciphers
@prop("P26")
def p26(c):
    d = Data(c.rng)
    c.model("FaultModel"); c.model("Kat")
    f = c.model("FaultModel", "FaultHist")
    cases = []
    H = c.histories(f)
    one = [h for h in H if h.count(0) == 1]
    hs = one + pick(c.rng, [h for h in H if h.count(0) > 1], c.q(34, 57))
    algs = ["aes", "sm4", "add"]
    for i, h in enumerate(hs):
        pat = "".join(map(str, h))
        key = "ciph o=k alg=%s key=%s wrap=1" % (algs[i % 3], hx(d.bytes(16)))
        mode = i % 2
        on, off = "fail pat=%s mode=%d" % (pat, mode), "fail at=0"
        for par in (0, 1):
            l = [key, "gcm_init o=g c=k kind=gcm"]
            for dr in "ed":
                n = 96 - (0, 0, 5, 15)[i % 4]
                # a failure, then the object is used again from a fresh IV
                l += ["gcm_iv o=g iv=%s" % hx(d.bytes(12)), on, "gcm_data o=g dir=%s par=%d in=%s%s" % (dr, par, hx(d.bytes(n)), " alias=1" if i % 3 == 0 else ""), off,
                      "gcm_iv o=g iv=%s" % hx(d.bytes(12)), "gcm_data o=g dir=%s par=%d in=%s" % (dr, par, hx(d.bytes(33))), "gcm_fin o=g n=16"]
            cases.append(Case("gcm-%d-%d" % (par, i), l, sched=True))
        l = [key]
        for dr in "ed":
            l += [on, "cbc o=k dir=%s in=%s iv=%s%s" % (dr, hx(d.bytes(96)), hx(d.bytes(16)), " alias=1" if i % 3 == 0 else ""), off, "cbc o=k dir=%s in=%s iv=%s" % (dr, hx(d.bytes(48)), hx(d.bytes(16)))]
        cases.append(Case("cbc-%d" % i, l))
        iv = d.bytes(12)
        l = [key, "gcm_init o=w c=k kind=file", "fput p=m b=%s" % hx(d.rnd(90)), "fput p=keep b=01"] + prep("w", iv) + ["fenc o=w inp=m outp=e"]
        l += prep("w", iv) + [on, "fenc o=w inp=m outp=f", off] + prep("w", iv) + [on, "fdec o=w inp=e outp=o", off] + prep("w", iv) + ["fdec o=w inp=e outp=o"]
        cases.append(Case("file-%d" % i, l))
    # a failure while hashing the key, the IV; a failure in a later chunk; long messages and late failures
    for i in range(c.q(9, 40)):
        key = "ciph o=k alg=%s key=%s wrap=1" % (algs[i % 3], hx(d.bytes(16)))
        l = [key, "fail at=1 mode=%d" % (i % 2), "gcm_init o=g c=k kind=%s" % ["gcm", "file"][i % 2], "fail at=0", "gcm_init o=h c=k kind=gcm", "fail at=1", "gcm_iv o=h iv=%s" % hx(d.bytes([12, 16, 7][i % 3])), "fail at=0",
             "gcm_iv o=h iv=%s" % hx(d.bytes([12, 16, 7][i % 3])), "gcm_data o=h in=%s" % hx(d.bytes(32)), "fail at=2", "gcm_data o=h in=%s par=%d" % (hx(d.bytes(40)), i // 3 % 2), "fail at=0",
             "gcm_iv o=h iv=%s" % hx(d.bytes(12)), "gcm_data o=h dir=d in=%s" % hx(d.bytes(40)), "gcm_fin o=h n=16"]
        for at in (1, 20, 39, 40):
            l += ["gcm_iv o=h iv=%s" % hx(d.bytes(12)), "fail at=%d" % at, "gcm_data o=h dir=%s par=%d in=%s" % ("ed"[i % 2], at % 2 if at != 20 else 1, hx(d.rnd(640))), "fail at=0"]
        cases.append(Case("late-%d" % i, l, sched=True))
    # format-preserving encryption: every block call of a run
    for kind, mac, calls in (("ff1", 0, 60), ("ff3", 0, 8), ("ff1c", 1, 62), ("ff3g", 1, 9)):
        for i in range(c.q(6, 20)):
            l = ["ciph o=k alg=%s key=%s wrap=1" % (algs[i % 3], hx(d.bytes(16))), "fpe_init o=f c=k radix=%d tw=%s mac=%d" % (c.rng.choice([2, 10, 36]), hx(d.bytes(c.rng.choice([0, 8, 20]))), mac)]
            ats = [1, 2, calls // 2, calls] if i == 0 else [c.rng.randrange(1, calls + 1) for _ in range(3)]
            for at in ats:
                s = sx(d.text(2, c.rng.choice([2, 11, 18, 70 if kind.startswith("ff1") else 30])))
                for dr in "ed":
                    l += ["fail at=%d mode=%d" % (at, i % 2), "fpe o=f kind=%s dir=%s in=%s" % (kind, dr, s), "fail at=0"]
            l += ["fpe o=f kind=%s in=%s" % (kind, s)] + (["fpe_fin o=f kind=%s" % kind] if mac else [])
            cases.append(Case("fpe-%s-%d" % (kind, i), l))
    c.run(cases)


# ----------------------------------------------------------- P27 independence
def enc_nest(lines):
    return ";".join(l.replace("=", "~").replace(" ", "|") for l in lines)


MODE_OPS = [m + x for m in ("gcm", "par", "cbc", "ff1", "ff3", "ff1c", "ff3g", "file") for x in "ed"] + ["sm3"]


def mode_op(d, i, o, w=None):
    """(setup, steps) of a self-contained use of one mode over the callback cipher"""
    r = d.r
    k = "ciph o=k%s alg=%s key=%s wrap=1" % (o, ["aes", "sm4", "add"][i % 3], hx(d.bytes(16)))
    w = w or r.choice(MODE_OPS)
    m, dr = w[:-1], w[-1]
    if m in ("gcm", "par"):
        return [k, "gcm_init o=g%s c=k%s kind=gcm" % (o, o)], ["gcm_iv o=g%s iv=%s" % (o, hx(d.bytes(r.choice([12, 12, 16, 20])))), "gcm_aad o=g%s aad=%s" % (o, hx(d.bytes(r.randrange(20)))),
               "gcm_data o=g%s dir=%s in=%s%s" % (o, dr, hx(d.bytes(r.randrange(20, 70))), " par=1" if m == "par" else ""), "gcm_fin o=g%s n=16" % o]
    if m == "cbc":
        return [k], ["cbc o=k%s dir=%s in=%s iv=%s" % (o, dr, hx(d.bytes(48)), hx(d.bytes(16)))]
    if m in ("ff1", "ff3"):
        return [k, "fpe_init o=f%s c=k%s radix=10 tw=%s" % (o, o, hx(d.bytes(r.randrange(12))))], ["fpe o=f%s kind=%s dir=%s in=%s" % (o, m, dr, sx(d.text(10, r.randrange(6, 20))))]
    if m in ("ff1c", "ff3g"):
        return [k, "fpe_init o=f%s c=k%s radix=10 tw=%s mac=1" % (o, o, hx(d.bytes(r.randrange(12))))], ["fpe o=f%s kind=%s dir=%s in=%s" % (o, m, dr, sx(d.text(10, r.randrange(6, 20)))), "fpe_fin o=f%s kind=%s" % (o, m)]
    if m == "file":
        iv = d.bytes(12); s = [k, "gcm_init o=w%s c=k%s kind=file" % (o, o), "fput p=m%s b=%s" % (o, hx(d.rnd(r.randrange(20, 90))))]
        if dr == "d":
            return s + prep("w" + o, iv) + ["fenc o=w%s inp=m%s outp=e%s" % (o, o, o)], prep("w" + o, iv) + ["fdec o=w%s inp=e%s outp=y%s" % (o, o, o)]
        return s, prep("w" + o, iv) + ["fenc o=w%s inp=m%s outp=x%s" % (o, o, o)]
    return ["sm3_init o=h%s" % o], ["sm3_init o=h%s" % o, "sm3_upd o=h%s in=%s" % (o, hx(d.bytes(r.randrange(100)))), "sm3_upd o=h%s in=%s" % (o, hx(d.bytes(r.randrange(70)))), "sm3_fin o=h%s" % o]


THREAD_OPS = ["blk", "aes", "sm4", "cbce", "sm3", "pad", "phone", "idcard", "cn", "mask", "kb", "ks"] + [m + x for m in ("gcm", "ff1", "ff3", "ff1c", "ff3g", "ee", "file") for x in "ed"] \
    + ["t" + a for a in ("wbsm4", "wbsm4d", "wbaes", "sewbsm4", "sewbsm4d")]


def thread_op(d, o, shared, w=None):
    """(setup, steps) of a use that a thread can repeat; shared is the name of a key object all threads may use"""
    r = d.r
    w = w or r.choice(THREAD_OPS)
    dr = w[-1]
    if w == "blk":
        return [], ["blk o=%s in=%s" % (shared, hx(d.bytes(48)))]
    if w in ("aes", "sm4"):
        one = "ciph o=k%s alg=%s key=%s" % (o, w, hx(d.key()))
        return [one], [one + " re=1", "blk o=k%s dir=%s in=%s" % (o, r.choice("ed"), hx(d.bytes(48)))]
    if w[0] == "t":       # tables generated and used
        one = "ciph o=k%s alg=%s key=%s%s" % (o, w[1:], hx(d.key()), " dummy=1" if w.startswith("twbsm4") else "")
        return [one], [one + " re=1", "blk o=k%s in=%s" % (o, hx(d.bytes(64)))]
    if w[:3] == "gcm":
        return ["gcm_init o=g%s c=%s kind=gcm" % (o, shared)], ["gcm_iv o=g%s iv=%s" % (o, hx(d.bytes(r.choice([12, 16])))), "gcm_aad o=g%s aad=%s" % (o, hx(d.bytes(20))),
               "gcm_data o=g%s dir=%s in=%s" % (o, dr, hx(d.bytes(50))), "gcm_fin o=g%s n=16" % o]
    if w == "cbce":
        return [], ["cbc o=%s dir=e in=%s iv=%s" % (shared, hx(d.bytes(r.randrange(20, 50))), hx(d.bytes(16)))]
    if w == "sm3":
        return ["sm3_init o=h%s" % o], ["sm3_init o=h%s" % o, "sm3_upd o=h%s in=%s" % (o, hx(d.bytes(90))), "sm3_fin o=h%s" % o, "sm3 in=%s" % hx(d.bytes(60))]
    if w[:2] == "ff":
        kind = w[:-1]; mac = 1 if len(kind) > 3 else 0
        return ["fpe_init o=f%s c=%s radix=%d tw=%s mac=%d" % (o, shared, r.choice([10, 36]), hx(d.bytes(8)), mac)], ["fpe o=f%s kind=%s dir=%s in=%s" % (o, kind, dr, sx(d.text(10, 14)))] + (["fpe_fin o=f%s kind=%s" % (o, kind)] if mac else [])
    if w in ("phone", "idcard", "cn"):
        a = "a" + o
        n = r.choice([2, 3, 4])
        both = {"phone": app_both("phone", d.text(10, 11), r.choice([None, "1***5******"]), a), "cn": app_both("cn", cn_text(d, n), r.choice([None, "*" * (n - 1) + "1"]), a),
                "idcard": app_both("idcard", d.text(10, 17) + "X", r.choice([None, "******19490101****"]), a)}[w]
        return ["app_init o=%s cipher=%s ffx=%s key=%s" % (a, r.choice(["aes", "sm4"]), r.choice(["ff1", "ff3"]), hx(d.key()))], [r.choice(both)]
    if w[:2] == "ee":
        return ["ee_key o=t%s key=%s" % (o, hx(d.key())), "gcm_init o=g%s c=t%s kind=ee" % (o, o)], ["gcm_iv o=g%s iv=%s" % (o, hx(d.bytes(12))), "gcm_data o=g%s dir=%s in=%s" % (o, dr, hx(d.bytes(50))), "gcm_fin o=g%s n=16" % o]
    if w == "mask":
        return ["mask_key o=t%s o2=u%s key=%s" % (o, o, hx(d.key())), "gcm_init o=g%s c=t%s kind=mask" % (o, o)], ["gcm_iv o=g%s iv=%s" % (o, hx(d.bytes(12))), "gcm_data o=g%s in=%s" % (o, hx(d.bytes(50))), "gcm_fin o=g%s n=16" % o]
    if w[:4] == "file":
        iv = d.bytes(12); s = ["gcm_init o=w%s c=%s kind=file" % (o, shared), "fput p=m%s b=%s" % (o, hx(d.rnd(r.randrange(20, 90))))]
        if dr == "d":
            return s + prep("w" + o, iv) + ["fenc o=w%s inp=m%s outp=e%s" % (o, o, o)], prep("w" + o, iv) + ["fdec o=w%s inp=e%s outp=y%s" % (o, o, o)]
        return s, prep("w" + o, iv) + ["fenc o=w%s inp=m%s outp=x%s" % (o, o, o)]
    if w == "ks":
        return [], ["ks_put p=z%s in=%s" % (o, hx(d.rnd(r.randrange(1, 60)))), "ks_get p=z%s n=20" % o]
    if w == "kb":         # keys moved through files
        a, b = r.choice([("wbsm4", "wbsm4d"), ("wbsm4", "wbsm4"), ("wbsm4d", "wbsm4d")])
        return ["ciph o=k%s alg=%s dummy=%d key=%s" % (o, a, r.randrange(3), hx(d.key())), "ctx_new o=c%s alg=%s dummy=0" % (o, b)], ["k2f o=k%s p=s%s" % (o, o), "f2k o=c%s p=s%s" % (o, o), "blk o=c%s in=%s" % (o, hx(d.bytes(32)))]
    return [], ["pad fn=%s in=%s" % (fn, hx(d.bytes(r.randrange(40)))) for fn in ("key7", "merge", "sep")]


@prop("P27")
def p27(c):
    d = Data(c.rng)
    c.model("GcmModel", consts={"Depth": 7}); c.model("Kat"); c.model("CipherLaws")
    cases = []
    # the block cipher of one operation starts another operation, at any of its calls: each within itself, and any within any
    ops = [m for m in MODE_OPS if m != "sm3"]
    pairs = [(m, m) for m in ops for _ in range(c.q(4, 12))] + [(m, m[:-1] + "ed"["de".index(m[-1])]) for m in ops] \
        + [(c.rng.choice(ops), c.rng.choice(MODE_OPS)) for _ in range(c.q(60, 800))]
    for i, (a, b) in enumerate(pairs):
        s1, l1 = mode_op(d, i, "x", a)
        s2, l2 = mode_op(d, i + 1, "y", b)
        l = ["poison b=%d" % (i * 37 % 256)] + s1 + s2
        main = next(j for j, x in enumerate(l1) if x.startswith(("gcm_data", "cbc", "fpe ", "fenc", "fdec")))
        l += l1[:main] + ["nest at=%d do=%s" % (1 + i % 4 if i < 4 * len(ops) else c.rng.randrange(1, 6), enc_nest(l2))] + l1[main:]
        cases.append(Case("nest-%d" % i, l + l1, sched=" par=1" in " ".join(l)))
    # operations of different objects, step by step in any order
    for i in range(c.q(60, 600)):
        n = c.rng.randrange(2, 4)
        ops = [mode_op(d, i + j, "abc"[j]) for j in range(n)]
        l = [x for s, _ in ops for x in s]
        qs = [list(o[1]) for o in ops]
        while any(qs):
            l.append(c.rng.choice([q for q in qs if q]).pop(0))
        cases.append(Case("mix-%d" % i, l, sched=" par=1" in " ".join(l)))
    # threads, each on objects of its own over shared keys: the same operation on all of them, and any mixture
    for i, w in enumerate(THREAD_OPS * c.q(1, 4) + [None] * c.q(24, 200)):
        a = ["aes", "sm4", "wbaes", "wbsm4"][i % 4]
        wrap = a != "wbsm4" and i % 2 == 0 or w in ("ff1e", "ff1d", "ff3e", "ff3d")
        l = ["seed t=%d" % d.seed(), "poison b=%d" % (i * 37 % 256), "ciph o=sh alg=%s key=%s%s" % (a, hx(d.bytes(16)), " wrap=1" if wrap else "")]
        ops = [thread_op(d, str(j), "sh", w) for j in range(4)]
        for s, _ in ops:
            l += s
        l.append("mt reps=%d do=%s" % ((c.q(30, 120) if w and w[0] == "t" else c.q(150, 1000)) if not wrap else c.q(60, 300), "/".join(enc_nest(x) for _, x in ops)))
        cases.append(Case("mt-%d-%s" % (i, w or "any"), l, sched=True))
    c.run(cases)


# --------------------------------------------------------------- P28 resources
def res_call(d, op, fault, kind, j):
    """lines of one call that goes wrong at the given step of ResModel (0: not at all)"""
    r = d.r
    iv = d.bytes(12) if not hasattr(d, "fiv") else d.fiv
    wk = kind in ("aes", "sm4", "add")          # over the recording callback: the cipher itself can fail
    pre = lambda o: prep(o, iv)
    if op == "enc":
        return {0: pre("w") + ["fenc o=w inp=m outp=x"], 1: pre("w") + ["fenc o=w inp=%s outp=x" % r.choice(["none", "dir"])],
                2: pre("w") + ["fenc o=w inp=m outp=%s" % r.choice(["no/where obad=1", "dir"])],
                3: pre("w") + ["fenc o=w inp=m outp=x lim=%d" % r.choice([0, 5, 20, 30])],
                4: pre("w") + (["fail at=%d mode=%d" % (r.choice([1, 2]), r.randrange(2)), "fenc o=w inp=m outp=x", "fail at=0"] if wk else ["fenc o=w inp=m outp=full obad=1"])}[fault]
    if op == "dec":
        return {0: pre("r") + ["fdec o=r inp=e outp=y"], 1: pre("r") + ["fdec o=r inp=%s outp=y" % r.choice(["none", "dir", "short"])],
                2: pre("r") + ["fdec o=r inp=e outp=%s" % r.choice(["no/where obad=1", "dir"])],
                3: pre("r") + ["fdec o=r inp=e outp=y lim=%d" % r.choice([0, 5, 20])],
                4: pre("r") + (["fail at=%d mode=%d" % (r.choice([1, 2]), r.randrange(2)), "fdec o=r inp=e outp=y", "fail at=0"] if wk and r.random() < 0.5 else ["fdec o=r inp=bad outp=y"])}[fault]
    if op == "store":
        return {0: ["ks_put p=z in=%s" % hx(d.rnd(20)), "k2f o=wb p=kf", "fs"], 1: ["ks_put p=no/where in=%s obad=1" % hx(d.rnd(20)), "k2f o=wb p=no/where obad=1"],
                2: ["ks_put p=z in=%s lim=3" % hx(d.rnd(20)), "k2f o=wb p=full obad=1"]}[fault]
    if op == "load":
        return {0: ["ks_get p=ks n=20"], 1: ["ks_get p=none n=20", "f2k o=wb p=none obad=1"], 2: ["ks_get p=ks n=21", "f2k o=wb p=kcutf"]}[fault]
    # calls on memory
    al = lambda n: hx(d.bytes(n))
    good = [["cbc o=t dir=e in=%s iv=%s" % (al(37), al(16)), "cbc o=t dir=d in=%s iv=%s" % (al(32), al(16))] if wk else ["sm3 in=%s" % al(70)],
            (["gcm_iv o=g iv=%s" % al(20), "gcm_aad o=g aad=%s" % al(20), "gcm_data o=g in=%s" % al(40), "gcm_data o=g in= par=1", "gcm_fin o=g n=16", "gcm_iv o=g iv=%s" % al(12), "gcm_data o=g dir=d par=1 in=%s" % al(70), "gcm_fin o=g n=16"]),
            ["fpe o=f1 kind=%s dir=%s in=%s" % (r.choice(["ff1", "ff3"]), r.choice("ed"), sx(d.text(10, 12))), "fpe o=f2 kind=ff1c dir=%s in=%s" % (r.choice("ed"), sx(d.text(10, 12))), "fpe_fin o=f2 kind=ff1c",
             "fpe o=f2 kind=ff3g dir=%s in=%s" % (r.choice("ed"), sx(d.text(10, 12))), "fpe_fin o=f2 kind=ff3g"],
            ["app o=ap what=phone dir=%s in=%s" % (r.choice("ed"), sx(d.text(10, 11)))] + app_both("idcard", d.text(10, 17) + "X", "******19490101****", "ap")[:1] + app_both("cn", cn_text(d, 3), "*" * 3, "ap")[:1],
            ["pad fn=%s in=%s" % (fn, al(20)) for fn in ("key7", "key0", "merge", "sep", "mlen", "slen")] + ["sm3 in=%s" % al(70), "blk o=wb in=%s" % al(32)]]
    bad = [["cbc o=t dir=e in=%s iv=%s cap=5" % (al(37), al(16)), "cbc o=t dir=d in=%s iv=%s" % (al(33), al(16))] if wk else ["app o=ap what=phone in=%s" % sx("12a")],
           ["gcm_iv o=g iv=%s" % al(12), "gcm_data o=g in=%s cap=3" % al(40), "gcm_data o=g dir=d par=1 in=%s cap=3" % al(40)],
           ["fpe o=f1 kind=%s in=%s" % (k, sx(t)) for k in ("ff1", "ff3") for t in ("", "1a", "1")] + ["fpe o=f2 kind=%s in=%s" % (k, sx(t)) for k in ("ff1c", "ff3g") for t in ("12x", "")],
           app_both("phone", "12x", None, "ap") + app_both("cn", "abc", None, "ap") + app_both("cn", cn_text(d, 2), "***", "ap")]
    fail = [["fail at=1", "cbc o=t dir=e in=%s iv=%s" % (al(37), al(16)), "fail at=0"], ["gcm_iv o=g iv=%s" % al(12), "fail at=2", "gcm_data o=g in=%s par=%d" % (al(40), j % 2), "fail at=0"],
            ["fail at=%d" % (1 + j % 8), "fpe o=f1 kind=%s dir=%s in=%s" % (r.choice(["ff1", "ff3"]), r.choice("ed"), sx(d.text(10, 12))), "fail at=0"],
            ["fail at=%d" % (1 + j % 8), "fpe o=f2 kind=%s dir=%s in=%s" % (r.choice(["ff1c", "ff3g"]), r.choice("ed"), sx(d.text(10, 12))), "fail at=0"]]
    return {0: r.choice(good), 1: r.choice(bad), 2: r.choice(fail) if wk else r.choice(bad)}[fault]


def res_catalogue(d, c):
    """(name, setup, calls): every function on existing contexts by itself, succeeding, refused and failing inside"""
    r = d.r; al = lambda n: hx(d.bytes(n)); out = []
    for rep in range(c.q(1, 3)):
        for alg in ("aes", "sm4", "add"):
            k = ["ciph o=k alg=%s key=%s wrap=1" % (alg, al(16))]
            for dr in "ed":
                n = r.choice([16, 32, 48])
                out.append(("cbc-" + dr, k, ["cbc o=k dir=%s in=%s iv=%s" % (dr, al(n), al(16))]))
                out.append(("cbc-%s-bad" % dr, k, ["cbc o=k dir=%s in=%s iv=%s cap=%d" % (dr, al(n), al(16), n - 1), "cbc o=k dir=d in=%s iv=%s" % (al(n + 1), al(16))]))
                out.append(("cbc-%s-fail" % dr, k, ["fail at=%d" % r.randrange(1, n // 16 + 1), "cbc o=k dir=%s in=%s iv=%s" % (dr, al(n), al(16)), "fail at=0"]))
                for par in (0, 1):
                    g = k + ["gcm_init o=g c=k kind=gcm"]; iv = ["gcm_iv o=g iv=%s" % al(r.choice([12, 20])), "gcm_aad o=g aad=%s" % al(r.randrange(40))]
                    out.append(("gcm-%s%d" % (dr, par), g, iv + ["gcm_data o=g dir=%s par=%d in=%s" % (dr, par, al(40)), "gcm_fin o=g n=16"]))
                    out.append(("gcm-%s%d-bad" % (dr, par), g, iv + ["gcm_data o=g dir=%s par=%d in=%s cap=3" % (dr, par, al(40))]))
                    out.append(("gcm-%s%d-fail" % (dr, par), g, iv + ["fail at=%d" % r.choice([1, 2, 3]), "gcm_data o=g dir=%s par=%d in=%s" % (dr, par, al(40)), "fail at=0"]))
                    out.append(("gcm-%s%d-none" % (dr, par), g, iv + ["gcm_data o=g dir=%s par=%d in=" % (dr, par), "gcm_fin o=g n=16"]))
            for kind in ("gcm", "file"):
                out.append(("%s-new-fail" % kind, k, ["fail at=1", "gcm_init o=n c=k kind=%s" % kind, "fail at=0"]))
                out.append(("%s-new" % kind, k, ["gcm_init o=n c=k kind=%s" % kind, "free o=n"]))
            for kind, mac, most in (("ff1", 0, 20), ("ff3", 0, 8), ("ff1c", 1, 30), ("ff3g", 1, 9)):
                f = k + ["fpe_init o=f c=k radix=%d tw=%s mac=%d" % (r.choice([2, 10, 36]), al(r.choice([0, 8, 16])), mac)]
                fin = ["fpe_fin o=f kind=%s" % kind] if mac else []
                for dr in "ed":
                    t = sx(d.text(2, r.choice([6, 19, 30])))
                    out.append(("%s-%s" % (kind, dr), f, ["fpe o=f kind=%s dir=%s in=%s" % (kind, dr, t)] + fin))
                    out.append(("%s-%s-bad" % (kind, dr), f, ["fpe o=f kind=%s dir=%s in=%s" % (kind, dr, x) for x in ("", sx("1"), sx("01*"))]))
                    for at in (1, 2, r.randrange(2, most)):
                        out.append(("%s-%s-fail%d" % (kind, dr, at), f, ["fail at=%d mode=%d" % (at, at % 2), "fpe o=f kind=%s dir=%s in=%s" % (kind, dr, t), "fail at=0"]))
        for alg, m in itertools.product(("aes", "sm4", "wbaes", "wbsm4"), ("ff1", "ff3", "ff9")):
            if m == "ff9" and alg != "aes":
                continue
            ap = ["app_init o=a cipher=%s ffx=%s key=%s" % (alg, m, al(16))]
            n = r.choice([2, 3, 4])
            for what, txt, mask, bad in (("phone", d.text(10, 11), "1***5******", "12x"), ("idcard", d.text(10, 17) + "X", "******19490101***X", "x" * 18), ("cn", cn_text(d, n), "*" * (n - 1) + "1", "abc")):
                for j in (0, 1):
                    out.append(("%s-%s-%s-%d" % (alg, m, what, j), ap, [app_both(what, txt, None, "a")[j], app_both(what, txt, mask, "a")[j]]))
                    if alg in ("aes", "sm4"):
                        out.append(("%s-%s-%s-%d-bad" % (alg, m, what, j), ap, [app_both(what, bad, None, "a")[j], app_both(what, txt, "***", "a")[j], app_both(what, bad, "*" * len(bad), "a")[j]]))
        for kind in ("aes", "sm4", "add", "ee", "mask", "wbaes", "wbsm4"):
            iv = d.bytes(12); setup = file_pair(d, kind, d.bytes(16)); wk = kind in ("aes", "sm4", "add")
            if wk:
                setup[0] += " wrap=1"
            setup += ["fput p=m b=%s" % hx(d.rnd(r.choice([20, 64, 90]))), "fput p=short b=0011", "fmut p=dir how=mkdir", "fmut p=full how=full"] + prep("w", iv) + ["fenc o=w inp=m outp=e", "fmut p=e how=cp to=bad", "fmut p=bad how=xor at=-1 x=1"]
            for name, o, op in (("enc", "w", "fenc o=w inp=m outp=x"), ("enc-noin", "w", "fenc o=w inp=none outp=x"), ("enc-noout", "w", "fenc o=w inp=m outp=no/where obad=1"), ("enc-dir", "w", "fenc o=w inp=m outp=dir"),
                                ("enc-indir", "w", "fenc o=w inp=dir outp=x"), ("enc-disk", "w", "fenc o=w inp=m outp=x lim=5"), ("enc-full", "w", "fenc o=w inp=m outp=full obad=1"),
                                ("dec", "r", "fdec o=r inp=e outp=y"), ("dec-noin", "r", "fdec o=r inp=none outp=y"), ("dec-noout", "r", "fdec o=r inp=e outp=no/where obad=1"), ("dec-dir", "r", "fdec o=r inp=e outp=dir"),
                                ("dec-indir", "r", "fdec o=r inp=dir outp=y"), ("dec-disk", "r", "fdec o=r inp=e outp=y lim=5"), ("dec-short", "r", "fdec o=r inp=short outp=y"), ("dec-bad", "r", "fdec o=r inp=bad outp=y")):
                out.append(("%s-%s" % (kind, name), setup, prep(o, iv) + [op]))
                if wk and name in ("enc", "dec"):
                    for at in (1, 2):
                        out.append(("%s-%s-fail" % (kind, name), setup, prep(o, iv) + ["fail at=%d" % at, op, "fail at=0"]))
            if kind in ("ee", "mask"):
                for x in ("e", "d"):
                    oo = "wr"[x == "d"]
                    out.append(("%s-mem-%s" % (kind, x), setup, ["gcm_iv o=%s iv=%s" % (oo, hx(iv)), "gcm_aad o=%s aad=%s" % (oo, al(20)), "gcm_data o=%s dir=%s in=%s" % (oo, x, al(40)), "gcm_fin o=%s n=16" % oo]))
        out.append(("sm3", ["sm3_init o=h"], ["sm3 in=%s" % al(70), "sm3_init o=h", "sm3_upd o=h in=%s" % al(90), "sm3_fin o=h"]))
        for fn in ("key7", "key0", "merge", "sep", "mlen", "slen"):
            out.append(("pad-" + fn, [], ["pad fn=%s in=%s" % (fn, al(n)) for n in (0, 5, 16, 20)]))
        out.append(("ks", [], ["ks_put p=z in=%s" % hx(d.rnd(20)), "ks_get p=z n=20"]))
        out.append(("ks-bad", ["ks_put p=z in=%s" % hx(d.rnd(20)), "fmut p=full how=full"], ["ks_put p=no/where in=%s obad=1" % hx(d.rnd(20)), "ks_get p=z n=21", "ks_get p=none n=5", "ks_put p=full in=%s obad=1" % hx(d.rnd(20))]))
        for a in ("wbsm4", "wbsm4d"):
            wb = ["ciph o=a alg=%s dummy=%d key=%s" % (a, r.randrange(3), al(16)), "ciph o=b alg=%s dummy=%d key=%s" % ("wbsm4", r.randrange(3), al(16)), "k2f o=a p=k", "k2f o=b p=cut", "kcut p=cut at=-1", "k2f o=b p=cut2", "kcut p=cut2 at=20", "k2b o=a s=s", "k2b o=b s=t", "fmut p=full how=full"]
            out.append(("wb-store", wb, ["k2f o=a p=k2"]))
            out.append(("wb-store-bad", wb, ["k2f o=a p=no/where obad=1", "k2f o=a p=full obad=1"]))
            out.append(("wb-load", wb, ["f2k o=b p=k", "blk o=b in=%s" % al(16)]))
            out.append(("wb-load-bytes", wb, ["b2k o=a s=t", "b2k o=a s=s", "blk o=a in=%s" % al(16)]))
            out.append(("wb-load-bad", wb, ["f2k o=b p=cut", "f2k o=b p=cut2", "f2k o=b p=none obad=1"]))
    return out


@prop("P28")
def p28(c):
    d = Data(c.rng)
    c.model("ResModel"); c.model("Kat")
    f = c.model("ResModel", "ResHist")
    H = c.histories(f)
    kinds = ["aes", "ee", "add", "sm4", "mask", "add"]
    cases = []
    for i, h in enumerate(pick(c.rng, H, c.q(170, 400)) * c.q(1, 3)):
        kind = kinds[i % len(kinds)]; n = c.rng.choice([25, 40, 150])
        d.fiv = d.bytes(12)
        k = d.bytes(16)
        l = ["seed t=%d" % d.seed()] + file_pair(d, kind, k)
        if kind in ("aes", "sm4", "add"):
            l[1] += " wrap=1"
        l += ["ciph o=gk alg=%s key=%s wrap=1" % (["aes", "sm4", "add"][i % 3], hx(k)), "gcm_init o=g c=gk kind=gcm", "fpe_init o=f1 c=gk radix=10 tw=0011", "fpe_init o=f2 c=gk radix=10 tw=0011 mac=1",
              "app_init o=ap cipher=aes ffx=%s key=%s" % (["ff1", "ff3"][i % 2], hx(k)), "ciph o=wb alg=wbsm4 dummy=%d key=%s" % (i % 2, hx(k)), "k2f o=wb p=kcutf", "kcut p=kcutf at=-1", "fs",
              "fput p=m b=%s" % hx(d.rnd(n)), "fmut p=dir how=mkdir", "fmut p=full how=full", "fput p=short b=001122", "ks_put p=ks in=%s" % hx(d.rnd(20))]
        l += prep("w", d.fiv) + ["fenc o=w inp=m outp=e", "fmut p=e how=cp to=bad", "fmut p=bad how=xor at=%d x=1" % c.rng.randrange(24 + n)]
        calls = []
        for j, (op, fl) in enumerate(h):
            calls += res_call(d, op, fl, kind, i + j)
        # the first round may leave what is made once; the later ones may not
        l += ["poison b=%d" % (i * 37 % 256)] + calls + ["mark"] + calls + ["kept"]
        cases.append(Case("h%d" % i, l))
    # every function by itself, in every way it can end
    for i, (name, pre, calls) in enumerate(res_catalogue(d, c)):
        cases.append(Case("each-%d-%s" % (i, name), ["seed t=%d" % d.seed(), "poison b=%d" % (i * 37 % 256)] + pre + calls + ["mark"] + calls * 2 + ["kept"], cost=6000 if "wb" in name else 500))
    # contexts that can be given back
    for i in range(c.q(12, 80)):
        one = ["fpe_init o=f c=k radix=%d tw=%s mac=%d" % (c.rng.randrange(2, 37), hx(d.bytes(c.rng.randrange(20))), i % 2), "fpe o=f kind=%s in=%s" % ([["ff1", "ff3"], ["ff1c", "ff3g"]][i % 2][i // 2 % 2], sx(d.text(2, 9))), "free o=f",
               "fpe_init o=f c=k radix=%d tw=00 mac=%d" % (c.rng.choice([0, 1, 37, 99]), i % 2)]
        cases.append(Case("free-%d" % i, ["ciph o=k alg=%s key=%s" % (["aes", "sm4"][i % 2], hx(d.bytes(16)))] + one + ["mark"] + one + ["kept"]))
    # keys stored as bytes and the ciphers keyed again
    for i in range(c.q(12, 60)):
        a = ["aes", "sm4", "wbaes", "wbsm4", "sewbsm4", "wbsm4d"][i % 6]; x = " dummy=%d" % (i // 6 % 3) if a.startswith("wbsm4") else ""
        one = ["ciph o=k alg=%s key=%s re=1%s" % (a, hx(d.key()), x), "blk o=k dir=%s in=%s" % ("ed"[i % 2] if a in ("aes", "sm4") else "e", hx(d.bytes(32)))]
        cases.append(Case("rekey-%d" % i, ["ciph o=k alg=%s key=%s%s" % (a, hx(d.bytes(16)), x)] + one + ["mark"] + one + ["kept"], cost=9000))
    c.run(cases)
    # the database functions: row after row, statement after statement
    for v in (5, 8):
        cases = []
        for i in range(c.q(16, 120)):
            nargs = 2 + i % 2
            rows = [udf_row(d, "s", c.rng.choice([1, 2, 2, 4]), c.rng.random() < 0.6, nargs) for _ in range(6)]
            life = ["udf_init o=s nargs=%d" % nargs] + rows[:3] + ["udf_end o=s", "udf_init o=b nargs=%d" % c.rng.choice([1, 4]), "udf_init o=b nargs=2 types=is"]
            cases.append(Case("v%d-rows-%d" % (v, i), ["udf_init o=s nargs=%d" % nargs] + rows + ["mark"] + rows + ["kept", "udf_end o=s"]))
            cases.append(Case("v%d-life-%d" % (v, i), life + ["mark"] + life + ["kept"]))
        c.run(cases, "udf%d" % v, label="udf%d" % v)


# ------------------------------------------------------------------ P29 release
CTX_ALGS = ["aes", "sm4", "wbaes", "wbsm4", "wbsm4d", "sewbsm4", "sewbsm4d"]


def life_history(d, h, tag):
    """a LifeHist behaviour on concrete contexts; everything is released at the end"""
    r = d.r; alg = {}; kind = {}; pre = ["ciph o=src alg=wbsm4 dummy=1 key=%s" % hx(d.bytes(16)), "k2f o=src p=k", "k2b o=src s=s", "fs", "fput p=m b=%s" % hx(d.rnd(40))]
    l = []; of = {}
    for op, i, j in h:
        if op == "new":
            alg[i] = r.choice(CTX_ALGS[:4] if any(o == "mode" and b == i for o, _, b in h) else CTX_ALGS)
            l.append("ctx_new o=c%d alg=%s dummy=%d" % (i, alg[i], r.randrange(3)))
        elif op == "key":
            a = alg[i]
            if a == "wbsm4" and r.random() < 0.4:
                l.append(r.choice(["f2k o=c%d p=k", "b2k o=c%d s=s"]) % i)
            else:
                l.append("ciph o=c%d alg=%s key=%s re=1" % (i, a, hx(d.key())))
            l.append("blk o=c%d dir=%s in=%s" % (i, r.choice("ed") if a in ("aes", "sm4") else "e", hx(d.bytes(32))))
        elif op == "mode":
            kind[i] = r.choice(["gcm", "file", "fpe", "mac"])
            if kind[i] in ("gcm", "file"):
                l.append("gcm_init o=m%d c=c%d kind=%s" % (i, j, kind[i]))
            else:
                l.append("fpe_init o=m%d c=c%d radix=10 tw=%s mac=%d" % (i, j, hx(d.bytes(r.randrange(20))), kind[i] == "mac"))
        elif op == "use":
            k = kind[i]
            if k == "gcm":
                l += ["gcm_iv o=m%d iv=%s" % (i, hx(d.bytes(12))), "gcm_data o=m%d dir=%s in=%s" % (i, r.choice("ed"), hx(d.bytes(40)))] + (["gcm_fin o=m%d n=16" % i] if r.random() < 0.6 else [])
            elif k == "file":
                l += prep("m%d" % i, d.bytes(12)) + (["fenc o=m%d inp=m outp=x" % i] if r.random() < 0.7 else [])
            else:
                f = r.choice(["ff1c", "ff3g"] if k == "mac" else ["ff1", "ff3"])
                l += ["fpe o=m%d kind=%s dir=%s in=%s" % (i, f, r.choice("ed"), sx(d.text(10, r.randrange(6, 20))))] + (["fpe_fin o=m%d kind=%s" % (i, f)] if k == "mac" and r.random() < 0.5 else [])
        elif op == "freem":
            l.append("free o=m%d" % i)
        else:
            l.append("free o=c%d" % i)
    return Case(tag, ["seed t=%d" % d.seed(), "poison b=%d" % r.choice([0, 0xA5, 0x37])] + pre + l + ["mark"] + l + ["kept"], cost=9000)


@prop("P29")
def p29(c):
    d = Data(c.rng)
    c.model("LifeModel", consts={"Depth": c.q(8, 10)}); c.model("Kat")
    f = c.model("LifeModel", "LifeHist", c.q(None, {"Depth": 10}))
    cases = []
    H = c.histories(f)
    rich = [h for h in H if sum(1 for o, _, _ in h if o == "use") >= 1]
    for i, h in enumerate(pick(c.rng, rich, c.q(180, 1500)) + pick(c.rng, H, c.q(60, 500))):
        cases.append(life_history(d, h, "h%d" % i))
    # each kind of context by itself: keyed or not, used or not
    for rep in range(c.q(2, 8)):
        for i, a in enumerate(CTX_ALGS):
            for keyed in (0, 1, 2):
                x = " dummy=%d" % (rep % 3)
                l = ["ctx_new o=c alg=%s%s" % (a, x)] + ["ciph o=c alg=%s key=%s re=1" % (a, hx(d.key())), "blk o=c in=%s" % hx(d.bytes(16))] * keyed + ["free o=c"]
                cases.append(Case("ctx-%s-%d-%d" % (a, keyed, rep), ["seed t=%d" % d.seed()] + l + ["mark"] + l * 2 + ["kept"], cost=6000))
        for i, kind in enumerate(["ee", "mask"]):
            for used in range(4):
                iv = hx(d.bytes(12))
                l = ["gcm_init o=g c=t kind=%s" % kind] + ["gcm_iv o=g iv=%s" % iv, "gcm_aad o=g aad=%s" % hx(d.bytes(20)), "gcm_data o=g dir=e in=%s" % hx(d.bytes(50))][:used] + ["free o=g"]
                key = "ee_key o=t key=%s" % hx(d.key()) if kind == "ee" else "mask_key o=t o2=u key=%s" % hx(d.key())
                cases.append(Case("%s-%d-%d" % (kind, used, rep), ["seed t=%d" % d.seed(), key] + l + ["mark"] + l * 2 + ["kept"], cost=6000))
        for a in ("aes", "sm4", "wbaes", "wbsm4"):
            for kind in ("gcm", "file"):
                for used in range(4):
                    l = ["gcm_init o=g c=k kind=%s" % kind] + (["gcm_iv o=g iv=%s" % hx(d.bytes(12)), "gcm_aad o=g aad=%s" % hx(d.bytes(20)), "gcm_data o=g dir=d in=%s" % hx(d.bytes(50))] if kind == "gcm" else prep("g", d.bytes(12)) + ["fenc o=g inp=m outp=x"])[:used] + ["free o=g"]
                    cases.append(Case("%s-%s-%d-%d" % (kind, a, used, rep), ["seed t=%d" % d.seed(), "ciph o=k alg=%s key=%s" % (a, hx(d.key())), "fput p=m b=%s" % hx(d.rnd(30))] + l + ["mark"] + l * 2 + ["kept"], cost=3000))
    c.run(cases)


# ------------------------------------------------- P30, P31 linear algebra
NS = (4, 8, 16, 32, 64, 128)


def wb(n):
    return 1 if n == 4 else n // 8


def mvec(d, n):
    b = d.bytes(wb(n))
    return bytes([b[0] & 15]) if n == 4 else b


def frombits(n, rows):
    """rows: integers, column 0 the most significant of n bits"""
    return b"".join(r.to_bytes(wb(n), "big") for r in rows)


def mmat(d, n, kind=None):
    """a matrix: random, invertible, singular in some way, sparse, permuted"""
    r = d.r
    kind = kind or r.choice(["rnd", "rnd", "inv", "inv", "inv", "sing", "perm", "sparse", "zero", "ones", "id", "late"])
    one = [1 << (n - 1 - i) for i in range(n)]
    if kind == "rnd":
        m = [r.getrandbits(n) for _ in range(n)]
    elif kind == "zero":
        m = [0] * n
    elif kind == "ones":
        m = [(1 << n) - 1] * n
    elif kind == "id":
        m = list(one)
    elif kind == "perm":
        m = list(one); r.shuffle(m)
    elif kind == "sparse":
        m = [one[r.randrange(n)] for _ in range(n)]
    else:
        # lower times upper unit triangular, rows exchanged
        lo = [one[i] | (r.getrandbits(n) & ~((1 << (n - i)) - 1)) for i in range(n)]
        up = [one[i] | (r.getrandbits(n) & ((1 << (n - 1 - i)) - 1)) for i in range(n)]
        m = []
        for x in lo:
            a = 0
            for j in range(n):
                if x & one[j]:
                    a ^= up[j]
            m.append(a)
        if kind != "late":
            r.shuffle(m)
        if kind == "sing":
            i, j = r.sample(range(n), 2)
            m[i] = r.choice([m[j], 0, m[i] ^ m[i]] + ([m[j] ^ m[(j + 1) % n]] if (j + 1) % n != i else []))
        if kind == "late":
            # the last pivots are missing: found only at the end of the elimination
            a = 0
            for j in range(n - 1):
                if r.random() < 0.5:
                    a ^= m[j]
            m[n - 1] = a
    return frombits(n, m)


def gf2_history(d, h, n, tag):
    l = ["seed t=%d" % d.seed()]
    for x in "ABC":
        l.append("mset o=%s k=m n=%d v=%s" % (x, n, hx(mmat(d, n))))
    for x in "uv":
        l.append("mset o=%s k=v n=%d v=%s" % (x, n, hx(mvec(d, n))))
    for x in "FG":
        l.append("mset o=%s k=a n=%d v=%s" % (x, n, hx(mmat(d, n) + mvec(d, n))))
    for f, o, a, b in h:
        if f == "muln" and n == 128:
            f = "mulv"
        x = ""
        if f in ("flip", "rbit", "set0", "set1"):
            x = " i=%d j=%d" % (d.r.randrange(n), d.r.randrange(n))
        if f[:3] == "set":
            x += " bit=" + f[3]; f = "set"
        l.append("mat f=%s n=%d" % (f, n) + (" o=" + o if o else "") + (" a=" + a if a else "") + (" b=" + b if b else "") + x)
    return Case(tag, l, cost=200 + len(h) * n * n // 4)


COMS = [("m", 4, 2)] + [(k, n, m) for k in "mva" for n, m in ((8, 4), (16, 4), (8, 8), (32, 4), (8, 16), (16, 8))]


@prop("P30")
def p30(c):
    d = Data(c.rng)
    c.model("Gf2Model", consts=c.q(None, {"Lasts": "{%s}" % ", ".join(map(str, range(16)))}))
    H = pick(c.rng, c.simulate("Gf2Model", "Gf2Hist", c.q(150, 800), 9), c.q(300, 3000))
    cases = []
    ns = [4, 4, 8, 8, 8, 16, 16, 32, 32, 64, 64, 128]
    for i, h in enumerate(H):
        n = ns[i % len(ns)]
        cases.append(gf2_history(d, h, n, "h%d" % i))
    for n in NS:
        # every function by itself
        for rep in range(c.q(3 if n < 64 else 2, 20)):
            A, B = mmat(d, n, "rnd" if rep % 2 else "inv"), mmat(d, n, "inv" if rep % 2 else "rnd")
            u, v = mvec(d, n), mvec(d, n)
            l = ["mset o=A k=m n=%d v=%s" % (n, hx(A)), "mset o=B k=m n=%d v=%s" % (n, hx(B)), "mset o=u k=v n=%d v=%s" % (n, hx(u)), "mset o=v k=v n=%d v=%s" % (n, hx(v)),
                 "mset o=F k=a n=%d v=%s" % (n, hx(A + u)), "mset o=G k=a n=%d v=%s" % (n, hx(B + v))]
            for s in ("init o=Z", "id o=I", "copy o=X a=A", "add o=X a=A b=B", "mul o=X a=A b=B", "mul o=Y a=B b=A", "trans o=X a=A", "trans o=Y a=B", "vinit o=w", "vadd o=w a=u b=v",
                      "mulv o=w a=A b=v", "mulv o=w a=B b=u", "aap o=w a=F b=v", "aap o=x a=G b=u", "amix o=H a=F b=G", "amix o=F a=F b=G", "amix o=G a=F b=G",
                      "isinv a=A", "isinv a=B", "isinv a=Z", "isinv a=I", "iseq a=A b=A", "iseq a=A b=B", "iseq a=Z b=I", "viseq a=u b=u", "viseq a=u b=v", "xor a=u", "hw a=u", "xor a=v", "hw a=v", "print a=A"):
                l.append("mat f=%s n=%d %s" % (s.split(" ")[0], n, " ".join(s.split(" ")[1:])))
            if n < 128:
                l += ["mat f=muln n=%d o=w a=A b=v" % n, "mat f=muln n=%d o=w a=B b=u" % n]
            cases.append(Case("all-%d-%d" % (n, rep), l, cost=200 + 40 * n * n // 4))
        # inverses and invertibility
        for rep in range(c.q({4: 60, 8: 50, 16: 40, 32: 16, 64: 8, 128: 3}[n], {4: 400, 8: 400, 16: 200, 32: 80, 64: 40, 128: 20}[n])):
            k = ["inv", "perm", "inv", "sing", "rnd", "late", "sparse", "inv"][rep % 8]
            cases.append(Case("inv-%d-%d" % (n, rep), ["mset o=A k=m n=%d v=%s" % (n, hx(mmat(d, n, k))), "mat f=isinv n=%d a=A" % n, "mat f=invs n=%d o=B a=A" % n, "mat f=mul n=%d o=C a=B b=A" % n], cost=200 + 6 * n * n // 4))
        # equality: a difference in any one place
        for i in range(n) if n < 64 else sorted(set(c.rng.sample(range(n), c.q(20, n)) + [0, 31, 32, 63, n - 1])):
            j = c.rng.randrange(n)
            a = mmat(d, n, "rnd"); w = bytearray(a); at = i * wb(n) + (0 if n == 4 else j // 8); w[at] ^= (8 >> j) if n == 4 else (0x80 >> (j % 8))
            u = mvec(d, n); z = bytearray(u); z[0 if n == 4 else i // 8] ^= (8 >> i) if n == 4 else (0x80 >> (i % 8))
            cases.append(Case("eq-%d-%d" % (n, i), ["mset o=A k=m n=%d v=%s" % (n, hx(a)), "mset o=B k=m n=%d v=%s" % (n, hx(w)), "mat f=iseq n=%d a=A b=B" % n, "mat f=iseq n=%d a=B b=B" % n,
                         "mset o=u k=v n=%d v=%s" % (n, hx(u)), "mset o=v k=v n=%d v=%s" % (n, hx(z)), "mat f=viseq n=%d a=u b=v" % n, "mat f=viseq n=%d a=v b=v" % n], cost=200 + n * n // 8))
        # every row, every column: read, set, clear, flip
        l = ["mset o=A k=m n=%d v=%s" % (n, hx(mmat(d, n, "rnd")))]
        ij = [(i, j) for i in range(n) for j in range(n)] if n <= 16 else [(i, c.rng.randrange(n)) for i in range(n)] + [(c.rng.randrange(n), j) for j in range(n)]
        if n >= 64:
            ij = pick(c.rng, ij, c.q(60, 256)) + [(0, 0), (n - 1, n - 1), (0, 63), (1, n // 2), (n // 2, n // 2 - 1), (n - 1, 0)]
        for k, (i, j) in enumerate(ij):
            x = "n=%d i=%d j=%d" % (n, i, j)
            l += ["mat f=rbit a=A " + x, "mat f=%s o=A %s bit=%d" % (("flip", x, 0) if k % 3 == 0 else ("set", x, k % 3 - 1)), "mat f=rbit a=A " + x]
        for s in range(0, len(l) - 1, 120):
            cases.append(Case("bit-%d-%d" % (n, s), l[:1] + l[1 + s:1 + s + 120], cost=200 + len(l[:121]) * n * n // 16))
    # every byte
    for hi in range(0, 256, 32):
        l = []
        for b in range(hi, hi + 32):
            l += ["mset o=v k=v n=8 v=%02x" % b, "mat f=xor n=8 a=v", "mat f=hw n=8 a=v"]
            if b < 16:
                l += ["mset o=w k=v n=4 v=%02x" % b, "mat f=xor n=4 a=w", "mat f=hw n=4 a=w"]
        cases.append(Case("byte-%d" % hi, l))
    for n in (16, 32, 64, 128):
        l = []
        for j in range(n):
            v = 1 << (n - 1 - j)
            for x in (v, ((1 << n) - 1) ^ v, d.r.getrandbits(n)):
                l += ["mset o=v k=v n=%d v=%s" % (n, hx(x.to_bytes(n // 8, "big"))), "mat f=xor n=%d a=v" % n, "mat f=hw n=%d a=v" % n]
        for s in range(0, len(l), 300):
            cases.append(Case("hw-%d-%d" % (n, s), l[s:s + 300]))
    # block-diagonal composition
    for k, n, m in COMS:
        for rep in range(c.q(2, 10)):
            l = []; names = []
            for i in range(m):
                names.append("x%d" % i)
                l.append("mset o=x%d k=%s n=%d v=%s" % (i, k, n, hx((b"" if k == "v" else mmat(d, n, "rnd")) + (b"" if k == "m" else mvec(d, n)))))
            if rep % 2:
                c.rng.shuffle(names)
                names[-1] = names[0]
            cases.append(Case("com-%s-%dx%d-%d" % (k, n, m, rep), l + ["mcom k=%s n=%d o=y s=%s" % (k, n, ",".join(names))], cost=200 + n * n * m * m // 8))
    c.run(cases)


@prop("P31")
def p31(c):
    d = Data(c.rng)
    c.model("Gf2Model")
    cases = []
    for n in NS:
        # pairs: each undoes the other; no two alike; the same again from the same seed
        for rep in range(c.q({4: 20, 8: 20, 16: 12, 32: 8, 64: 4, 128: 3}[n], {4: 150, 8: 150, 16: 80, 32: 40, 64: 20, 128: 10}[n])):
            s, t = d.r.choice([0, 1, 5, 2 ** 31, 2 ** 32 - 1, d.r.getrandbits(32)]), d.seed()
            seq = [d.r.choice(["gen", "agen", "gen", "rand", "vrand"]) for _ in range(4 if n < 32 else 2)]
            one = lambda p: ["draw f=%s n=%d o=%s%d" % (f, n, p, i) + (" o2=%si%d" % (p, i) if f in ("gen", "agen") else "") for i, f in enumerate(seq)] + ["perm n=16", "perm n=256"][: rep % 3]
            cases.append(Case("rep-%d-%d" % (n, rep), ["seed t=%d" % t, "rseed s=%d" % s] + one("p") + ["rseed s=%d" % (s ^ 1)] + one("q")[:2] + ["rseed s=%d" % s] + one("r"), cost=500 + len(seq) * n * n))
        for rep in range(c.q({4: 60, 8: 60, 16: 24, 32: 10, 64: 4, 128: 2}[n], {4: 800, 8: 800, 16: 300, 32: 100, 64: 40, 128: 20}[n])):
            m = {4: 12, 8: 8, 16: 4, 32: 3}.get(n, 1)
            cases.append(Case("gen-%d-%d" % (n, rep), ["seed t=%d" % d.seed(), "rseed s=%d" % d.r.getrandbits(32)] +
                              ["draw f=%s n=%d o=a%d o2=b%d" % (("gen", "agen")[(i + rep) % 2], n, i, i) for i in range(m)] +
                              ["mat f=isinv n=%d a=a%d" % (n, m - 1)], cost=500 + m * n * n))
        # each bit comes up both ways
        for f, k in (("rand", c.q(60, 200) if n < 64 else 40), ("vrand", 80), ("gen", 60 if n < 32 else 0), ("agen", 60 if n < 32 else 0)):
            if k:
                cases.append(Case("mix-%s-%d" % (f, n), ["seed t=%d" % d.seed(), "rseed s=%d" % d.r.getrandbits(32)] +
                                  ["draw f=%s n=%d o=a%d" % (f, n, i) + (" o2=b%d" % i if f[-3:] == "gen" else "") for i in range(k)] + ["mixed f=%s n=%d" % (f, n)], cost=500 + k * n * n // (8 if f[-3:] != "gen" else 1)))
    for rep in range(c.q(2, 10)):
        cases.append(Case("perm16-%d" % rep, ["seed t=%d" % d.seed(), "rseed s=%d" % rep, "draw f=rand n=4 o=a"] + ["perm n=16"] * 700 + ["mixed f=perm n=16"], cost=20000))
        cases.append(Case("perm256-%d" % rep, ["seed t=%d" % d.seed(), "rseed s=%d" % rep, "draw f=rand n=4 o=a"] + ["perm n=256"] * c.q(12, 60), cost=20000))
    for rep in range(c.q(8, 40)):
        cases.append(Case("perms-%d" % rep, ["seed t=%d" % d.seed()] + ["draw f=rand n=4 o=a", "perm n=16", "perm n=256", "perm n=16"] * 2))
    for n in range(1, 17):
        xs = hx(bytes(range(n)))
        cases.append(Case("shuf-%d" % n, ["seed t=%d" % d.seed()] + ["shuffle in=%s" % xs] * (500 if n <= 10 else 700 if n == 16 else 10) + (["mixed f=shuffle n=%d" % n] if n <= 10 or n == 16 else []), cost=3000 + 1000 * n))
    for rep in range(c.q(20, 200)):
        n = d.r.choice([0, 1, 2, 3, 32, 33, 40, 64, 100, 255, 256, 300])
        cases.append(Case("shufl-%d" % rep, ["seed t=%d" % d.seed(), "shuffle in=%s" % hx(d.bytes(n)), "shuffle in=%s" % hx(bytes(n // 2) + b"\1" * (n - n // 2))]))
    # processes started at different times
    for rep in range(c.q(12, 100)):
        xs = bytes(d.r.sample(range(256), d.r.choice([16, 17, 32, 64, 256])))
        ts = [d.r.randrange(1 << 31) for _ in range(5)] + [1, 2]
        ts.append(ts[0] + 1)
        cases.append(Case("fshuf-%d" % rep, ["fshuf t=%d in=%s" % (t, hx(xs)) for t in ts + ts[:3]], cost=4000))
    # the generator itself
    for rep in range(c.q(6, 30)):
        s = [d.r.choice([0, 1, 2 ** 32 - 1, 2 ** 31, 2 ** 32 - 6, d.r.getrandbits(32)]) for _ in range(2)]
        cases.append(Case("num-%d" % rep, ["rdraw s=%d n=%d" % (x, c.q(1500, 4000)) for x in (s[0], s[1], s[0])] + ["rdraw s=%d n=8" % x for x in set(d.r.getrandbits(32) for _ in range(20))], cost=12000))
    # the permutation of the 32-bit numbers
    P = 2 ** 32 - 5
    xs = list(range(0, 64)) + list(range(P // 2 - 40, P // 2 + 40)) + list(range(P - 60, P + 5)) + [2 ** k + e for k in range(2, 33) for e in (-1, 0, 1) if 2 ** k + e < 2 ** 32]
    xs += [d.r.getrandbits(32) for _ in range(c.q(600, 20000))] + [P - x for x in range(1, 60)] + [65535 * k + e for k in range(1, 40) for e in (0, 1)] + [(1 << 16) * k for k in range(1, 200, 7)]
    for s in range(0, len(xs), 100):
        cases.append(Case("qpr-%d" % s, ["qpr xs=%s" % "".join("%08x" % x for x in xs[s:s + 100])], cost=2000))
    c.run(cases)
    if c.tier == "thorough":
        c.run([Case("qprall", ["qprall"])], timeout=600, label="all")


# --------------------------------------------------------------- P32 what white-box tables hide
@prop("P32")
def p32(c):
    """white-box tables as an attacker sees them: the driver reads them through the public structures"""
    d = Data(c.rng)
    c.model("EncModel", consts=c.q(None, {"Firsts": "{0, 1, 2, 3, 4, 5, 6, 7}", "Seconds": "{0, 1, 2, 3, 4, 5, 6, 7}"}))
    cases = []
    far = lambda n: ["%d" % ((i * 2 ** 31 // n) + d.r.randrange(2 ** 31 // n - 1) + 1) for i in range(n)]
    def near(n):
        t = d.r.randrange(10 ** 9, 2 * 10 ** 9)
        return ["%d" % x for x in [t] + c.rng.sample([t + 1, t + 2, t + 60, t + 256, t + 3600, t + 65536, t + 86400, t + 604800, t ^ (1 << 24), t ^ (1 << 30), t + 100, t + 1000, t - 10 ** 6, t + 31536000], n - 1)]
    child = lambda l: "child do=" + ";".join(x.replace("=", "~").replace(" ", "|") for x in l)
    key = lambda n=16: hx(d.bytes(n))
    aux = lambda n=24: hx(d.r.getrandbits(128 * n - 256).to_bytes(16 * n - 32, "big") + bytes(16) + b"\xff" * 16)
    AES = {"wbaes": "ciph o=%s alg=wbaes key=%s", "ee": "ee_key o=%s key=%s", "mask": "mask_key o=%s o2=%sd key=%s"}
    def mk(a, o, k):
        return (AES[a] % (o, o, k)) if a == "mask" else AES[a] % (o, k)
    def objs(a, o):
        return [o, o + "d"] if a == "mask" else [o]
    # one table, looked at from every side
    for a in AES:
        for rep in range(c.q(2, 6)):
            k = key(16 if rep != 1 or a != "wbaes" else d.r.randrange(1, 16))
            t = far(1)[0]
            head = ["seed t=%s" % t, mk(a, "w", k)]
            outer = ["tkey alg=%s key=%s" % (a, k)] + head
            for o in objs(a, "w"):
                outer += ["tsum o=" + o, "text o=" + o, "tlast o=" + o] + (["tgx o=" + o, "taux o=%s in=%s" % (o, aux())] if a != "wbaes" else []) + ["tfind o=%s key=%s" % (o, k)]
            cases.append(Case("all-%s-%d" % (a, rep), outer, cost=20000))
            for o in objs(a, "w")[: 1 if c.tier == "quick" and rep else 2]:
                rounds = list(range(9))
                cases.append(Case("nib-%s-%s-%d" % (a, o, rep), head + ["tnib o=%s w=%d i=%d" % (o, w, i) for i in rounds for w in (2, 3)], cost=60000))
                cases.append(Case("box-%s-%s-%d" % (a, o, rep), head + ["tbox o=%s i=%d c=%d" % (o, i, j) for i in rounds for j in range(4)], cost=60000))
    # the same key again, at another time
    for a in AES:
        for rep in range(c.q(4, 16)):
            k = key()
            l = []
            ts = far(c.q(4, 10)) if rep % 2 else near(c.q(5, 10))
            for i, t in enumerate(ts):
                l += ["seed t=%s" % t, mk(a, "w", k)]
                for o in objs(a, "w"):
                    l += ["tsum o=" + o] + (["taux o=%s in=%s" % (o, aux(12))] if a != "wbaes" else [])
            # and one more from another object
            l += ["seed t=%s" % (int(max(ts, key=int)) + 77), mk(a, "v", k)] + ["tsum o=" + o for o in objs(a, "v")] + ["tfind o=%s key=%s" % (o, k) for o in objs(a, "v")]
            cases.append(Case("time-%s-%d" % (a, rep), l, cost=40000))
            # each the first of its process
            k = key()
            cases.append(Case("proc-%s-%d" % (a, rep), [child(["seed t=%s" % t, mk(a, "w", k)] + ["tsum o=" + o for o in objs(a, "w")] + (["taux o=w in=%s" % aux(12)] if a != "wbaes" else [])) for t in (near if rep % 2 else far)(c.q(5, 12))], cost=40000))
    # SM4
    SM = ["wbsm4", "wbsm4d"]
    for n in range(c.q(8, 30)):
        a = ("wbsm4", "wbsm4", "wbsm4d", "sewbsm4", "wbsm4", "sewbsm4d", "wbsm4d", "sewbsm4")[n % 8]
        dummy = (0, 1, 2, 5, 3, 4)[n % 6]
        k = key(16 if n % 5 or a[:2] == "se" else d.r.randrange(1, 16))
        new = lambda o: "ciph o=%s alg=%s key=%s" % (o, a, k) + (" dummy=%d" % dummy if a[0] == "w" else "")
        ts = (near if n % 2 else far)(c.q(5, 12))
        cases.append(Case("proc-%s-%d" % (a, n), [child(["seed t=" + t, new("w"), "tsum o=w"]) for t in ts], cost=30000))
        cases.append(Case("rnd-%d" % n, ["seed t=%s" % far(1)[0], "tkey alg=%s key=%s" % (a, k), new("w"), "tsum o=w", "tend o=w"] + ["trnd o=w r=%d" % r for r in range(32)] + ["tfind o=w key=" + k], cost=60000))
        l = []
        for i, t in enumerate((far if n % 2 else near)(c.q(6, 14))):
            o = "w" if i < 4 else "v"
            l += ["seed t=" + t, new(o), "tsum o=" + o]
        if a[0] == "w" and dummy:
            l.append("tdummy o=v n=%d" % (4 * dummy))
        cases.append(Case("time-%s-%d" % (a, n), l + ["tfind o=v key=" + k], cost=30000))
    c.run(cases, "tab")
