"""Inputs: types, values, encodings to mutate, documents, literals.

Everything here only *chooses* inputs.  What the replies have to be is decided
by the TLA+ specification (spec/Abi.tla).
"""
import random

ELEM = ["address", "bytes", "bool", "string", "int", "uint", "fbytes"]
LENS = [0, 1, 2, 31, 32, 33, 63, 64, 65]
BIGLENS = [95, 96, 97, 127, 128, 129, 255, 256, 257]
WIDTHS = [8, 16, 24, 32, 40, 64, 96, 104, 128, 160, 200, 248, 256]


def T(k, **kw):
    return dict(k=k, **kw)


ADDRESS, BYTES, BOOL, STRING = T("address"), T("bytes"), T("bool"), T("string")


def INT(n=256):
    return T("int", n=n)


def UINT(n=256):
    return T("uint", n=n)


def width_edges(n):
    """Words at the edges of numbers of n bits: sign bit, largest and smallest signed, largest unsigned, and one beyond."""
    return [list((x % (1 << 256)).to_bytes(32, "big")) for x in (1 << (n - 1), (1 << (n - 1)) - 1, -(1 << (n - 1)), (1 << n) - 1, 1 << n, -(1 << (n - 1)) - 1)]


def FB(n):
    return T("fbytes", n=n)


def ARR(t):
    return T("array", t=t)


def FARR(t, n):
    return T("farray", t=t, n=n)


def TUP(*ts):
    return T("tuple", ts=list(ts))


def text(s):
    return [ord(c) for c in s]


def dynamic(t):
    k = t["k"]
    if k in ("bytes", "string", "array"):
        return True
    if k == "farray":
        return dynamic(t["t"])
    if k == "tuple":
        return any(dynamic(x) for x in t["ts"])
    return False


def head(t):
    if dynamic(t):
        return 32
    if t["k"] == "farray":
        return t["n"] * head(t["t"])
    if t["k"] == "tuple":
        return sum(head(x) for x in t["ts"])
    return 32


def type_name(t):
    k = t["k"]
    if k in ("int", "uint"):
        return k + str(t["n"])
    if k == "fbytes":
        return "bytes" + str(t["n"])
    if k == "array":
        return type_name(t["t"]) + "[]"
    if k == "farray":
        return type_name(t["t"]) + "[%d]" % t["n"]
    if k == "tuple":
        return "(" + ",".join(type_name(x) for x in t["ts"]) + ")"
    return k


class Gen:
    def __init__(self, seed, ints=(), strs=()):
        self.r = random.Random(seed)
        self.ints, self.strs = list(ints), list(strs)

    def near(self, cap):
        """The constants of the working tree and their neighbours, up to cap."""
        out = set()
        for n in self.ints:
            out |= {n - 1, n, n + 1, n // 32, n // 32 + 1, 32 * n}
            if n <= 256:
                out |= {1 << n, (1 << n) - 1, (1 << n) + 1} if cap > 1 << 20 else set()
        return sorted(x for x in out if 0 <= x <= cap)

    def sizes(self, base, cap):
        return sorted(set(base) | set(self.near(cap)))

    def pick(self, xs):
        return self.r.choice(xs)

    # ---- types ----
    def elem(self):
        r = self.r
        k = r.choice(ELEM)
        if k in ("int", "uint"):
            return T(k, n=r.choice(WIDTHS))
        if k == "fbytes":
            return FB(r.choice([1, 2, 3, 4, 8, 15, 16, 20, 31, 32, r.randint(1, 32)]))
        return T(k)

    def type(self, depth=3, tuples=True):
        r = self.r
        if depth == 0 or r.random() < 0.35:
            return self.elem()
        c = r.random()
        if c < 0.35:
            return ARR(self.type(depth - 1, tuples))
        if c < 0.65 or not tuples:
            return FARR(self.type(depth - 1, tuples), r.choice([1, 1, 2, 2, 3, 4]))
        return TUP(*[self.type(depth - 1, tuples) for _ in range(r.choice([1, 2, 2, 3, 3, 4]))])

    def types(self, depth=3, lo=1, hi=4):
        return [self.type(depth) for _ in range(self.r.randint(lo, hi))]

    # ---- values ----
    def word(self):
        r = self.r
        c = r.randint(0, 11)
        if c == 0:
            return [0] * 32
        if c == 1:
            return [255] * 32
        if c == 2:
            return [0x80] + [0] * 31
        if c == 3:
            return [0x7F] + [255] * 31
        if c == 4:
            return [0] * 31 + [r.choice([1, 127, 128, 255])]
        if c == 5:
            w = [0] * 32
            w[r.randint(0, 31)] = r.randint(1, 255)
            return w
        if c == 6:
            n = r.randint(1, 31)
            return [0] * n + [r.randint(1, 255)] + [r.randint(0, 255) for _ in range(31 - n)]
        if c == 7:
            n = r.choice([8, 16, 24])
            return [0] * (32 - n) + [r.randint(0, 255) for _ in range(n)]
        if c == 8:
            # 64-bit limb boundaries
            n = r.choice([8, 16, 24])
            return [0] * (31 - n) + [1] + [0] * n
        return [r.randint(0, 255) for _ in range(32)]

    def addr(self):
        r = self.r
        c = r.randint(0, 5)
        if c == 0:
            return [0] * 20
        if c == 1:
            return [255] * 20
        if c == 2:
            return [0] * 19 + [r.randint(1, 255)]
        if c == 3:
            return [r.randint(1, 255)] + [0] * 19
        return [r.randint(0, 255) for _ in range(20)]

    def plen(self, big=0.1):
        r = self.r
        c = r.random()
        if c < big:
            return r.choice(BIGLENS)
        if c < 0.7:
            return r.choice(LENS)
        return r.randint(0, 70)

    def blob(self, n):
        r = self.r
        c = r.random()
        if c < 0.15:
            return [0] * n
        if c < 0.3:
            return [255] * n
        if c < 0.4:
            return [r.randint(0, 255)] * n
        b = [r.randint(0, 255) for _ in range(n)]
        if c < 0.6 and n > 1:
            k = r.randint(1, n - 1)
            b = b[:k] + [0] * (n - k) if c < 0.5 else [0] * k + b[k:]
        return b

    def string(self, n=None):
        r = self.r
        if n is None:
            n = self.plen()
        out = ""
        pools = ["abcXYZ019 _-", ",()[]\"\\'{}:", "\u00e9\u00df\u03bb\u0416", "\u20ac\u4e2d\ufffd\u2028", "\U0001F600\U0001F4A9\U00010348", "\u0000\u0001\n\t\u007f\u0080\u07ff\u0800\uffff\U0010ffff"]
        c = r.random()
        if c < 0.4:
            ps = pools[:1]
        elif c < 0.6:
            ps = pools[:2]
        else:
            ps = pools
        while len(out.encode()) < n:
            x = r.choice(r.choice(ps))
            if len((out + x).encode()) > n:
                x = "a"
            out += x
        return list(out.encode())

    edge = None      # which of the words at the edges of a number's width to take

    def value(self, t, budget=None, maxlen=3):
        r = self.r
        k = t["k"]
        if k == "address":
            return dict(k=k, w=self.addr())
        if k == "int" or k == "uint":
            if self.edge is not None or r.random() < 0.15:
                return dict(k=k, w=width_edges(t["n"])[r.randrange(6) if self.edge is None else self.edge])
            return dict(k=k, w=self.word())
        if k == "bool":
            return dict(k=k, v=r.random() < 0.5)
        if k == "bytes":
            return dict(k=k, b=self.blob(self.plen()))
        if k == "string":
            return dict(k=k, b=self.string())
        if k == "fbytes":
            return dict(k=k, b=self.blob(t["n"]))
        if k == "array":
            n = r.choice([0, 0, 1, 1, 2, 2, 3, 4][: 2 * maxlen + 2])
            return dict(k=k, ts=[self.value(t["t"], maxlen=max(1, maxlen - 1)) for _ in range(n)])
        if k == "farray":
            return dict(k=k, ts=[self.value(t["t"], maxlen=max(1, maxlen - 1)) for _ in range(t["n"])])
        return dict(k=k, ts=[self.value(x, maxlen=max(1, maxlen - 1)) for x in t["ts"]])

    def values(self, ts, **kw):
        return [self.value(t, **kw) for t in ts]


class HintGen(Gen):
    """A generator that prefers the constants of the working tree."""

    def pick(self, xs):
        if self.strs and self.r.random() < 0.3:
            s = self.r.choice(self.strs)
            return self.r.choice([s, s + "a", "a" + s])
        return self.r.choice(xs)

    def plen(self, big=0.1):
        ns = self.near(1500)
        if ns and self.r.random() < 0.3:
            return self.r.choice(ns)
        return super().plen(big)

    def word(self):
        r = self.r
        ns = self.near(1 << 256)
        if ns and r.random() < 0.3:
            n = r.choice(ns) % (1 << 256)
            return list((n if r.random() < 0.7 else (1 << 256) - 1 - n).to_bytes(32, "big"))
        return super().word()

    def blob(self, n):
        b = super().blob(n)
        bs = [x for x in self.near(255)]
        if b and bs and self.r.random() < 0.4:
            c = self.r.choice(bs)
            k = self.r.randint(0, 4)
            if k == 0:
                return [c] * n
            b = list(b)
            if k == 1:
                b[-1] = c
            elif k == 2:
                b[0] = c
            else:
                b[self.r.randrange(n)] = c
        return b

    def string(self, n=None):
        if self.strs and self.r.random() < 0.35:
            s = self.r.choice(self.strs)
            return list(self.r.choice([s, s, "a" + s, s + "b", s + s, "ab" + s + "cd"]).encode())
        return super().string(n)

    def elem(self):
        r = self.r
        if r.random() < 0.3:
            n = r.choice(self.near(256) or [1])
            c = [T(k, n=n) for k in ("int", "uint") if n and n % 8 == 0] + ([FB(n)] if 1 <= n <= 32 else [])
            if c:
                return r.choice(c)
        return super().elem()

    def type(self, depth=3, tuples=True):
        r = self.r
        ns = [x for x in self.near(40) if x]
        if depth and ns and r.random() < 0.12:
            n = r.choice(ns)
            return FARR(self.elem(), n) if r.random() < 0.5 or not tuples else TUP(*[self.elem() for _ in range(n)])
        return super().type(depth, tuples)

    def value(self, t, budget=None, maxlen=3):
        ns = self.near(40)
        if t["k"] == "array" and ns and self.r.random() < 0.2:
            return dict(k="array", ts=[self.value(t["t"], maxlen=1) for _ in range(self.r.choice(ns))])
        return super().value(t, budget, maxlen)


# ---- encodings, only to have something to decode ----
def num(n):
    return list(int(n).to_bytes(32, "big"))


def pad(b):
    return list(b) + [0] * (-len(b) % 32)


def tok_dynamic(v):
    if v["k"] in ("bytes", "string", "array"):
        return True
    if v["k"] in ("farray", "tuple"):
        return any(tok_dynamic(x) for x in v["ts"])
    return False


def enc1(v):
    k = v["k"]
    if k == "address":
        return [0] * 12 + v["w"]
    if k in ("int", "uint"):
        return list(v["w"])
    if k == "bool":
        return num(1 if v["v"] else 0)
    if k == "fbytes":
        return pad(v["b"])
    if k in ("bytes", "string"):
        return num(len(v["b"])) + pad(v["b"])
    if k == "array":
        return num(len(v["ts"])) + enc(v["ts"])
    return enc(v["ts"])


def enc(vs):
    bodies = [enc1(v) for v in vs]
    dyn = [tok_dynamic(v) for v in vs]
    off = sum(32 if d else len(b) for d, b in zip(dyn, bodies))
    h, t = [], []
    for d, b in zip(dyn, bodies):
        if d:
            h += num(off)
            off += len(b)
            t += b
        else:
            h += b
    return h + t


def headers(ts, data):
    """Positions of the offset, count and length words a decoder of well-formed data follows."""
    out = []

    def n_at(p):
        if p + 32 > len(data):
            return None
        x = int.from_bytes(bytes(data[p:p + 32]), "big")
        return x if x <= len(data) else None

    def go(t, base, p, depth):
        if depth > 6:
            return
        k = t["k"]
        if not dynamic(t):
            return
        out.append(("offset", p, base))
        o = n_at(p)
        if o is None or base + o > len(data):
            return
        q = base + o
        if k in ("bytes", "string"):
            out.append(("length", q, q + 32))
        elif k == "array":
            out.append(("count", q, q + 32))
            n = n_at(q)
            if n is None or n > 300:
                return
            for i in range(n):
                go(t["t"], q + 32, q + 32 + i * head(t["t"]), depth + 1)
        elif k == "farray":
            for i in range(t["n"]):
                go(t["t"], q, q + i * head(t["t"]), depth + 1)
        else:
            at = q
            for x in t["ts"]:
                go(x, q, at, depth + 1)
                at += head(x)

    at = 0
    for t in ts:
        go(t, 0, at, 0)
        at += head(t)
    return out
