"""Systematic sweeps next to the random generators: sizes, positions, orders, every small text.

sweep_Cxx(g, scale) -> list of (op, args) or (group, op, args).  g.sizes(list, cap) adds the neighbours of the
constants of the working tree (hints.py) to a list of sizes.
"""
import itertools
from abigen import *
from gens import *
from gens import nodes, at


def V(k, x):
    return dict(k=k, **({"w": x} if k in ("address", "int", "uint") else {"v": x} if k == "bool" else {"ts": x} if k in ("array", "farray", "tuple") else {"b": x}))


def U(n):
    return V("uint", num(n % (1 << 256)))


def bools(n):
    return [V("bool", i % 3 == 0) for i in range(n)]


def chain(d, w, t):
    for i in range(d):
        t = w[i % len(w)](t)
    return t


CHAINS = [[ARR], [lambda x: FARR(x, 1)], [TUP], [lambda x: TUP(x, STRING)], [lambda x: TUP(BOOL, x)], [ARR, TUP], [ARR, lambda x: FARR(x, 1)], [TUP, lambda x: FARR(x, 1), lambda x: TUP(BYTES, x)]]


def one_each(g, t):
    """A value with exactly one element in every list, so that depth is what grows."""
    k = t["k"]
    if k == "array":
        return V(k, [one_each(g, t["t"])])
    if k == "farray":
        return V(k, [one_each(g, t["t"]) for _ in range(t["n"])])
    if k == "tuple":
        return V(k, [one_each(g, x) for x in t["ts"]])
    if k in ("bytes", "string"):
        return V(k, [97] * g.r.choice([0, 1, 3]))
    return g.value(t)


PAIR = [ADDRESS, BYTES, BOOL, STRING, INT(), UINT(8), FB(3), FB(32), ARR(UINT()), ARR(STRING), ARR(ARR(BOOL)), FARR(UINT(), 2), FARR(STRING, 2), FARR(FARR(BOOL, 2), 2), FARR(ARR(UINT()), 1), ARR(FARR(UINT(), 2)), ARR(FARR(BYTES, 2)),
        TUP(UINT()), TUP(STRING), TUP(UINT(), BOOL), TUP(BYTES, UINT()), TUP(UINT(), ARR(BOOL)), ARR(TUP(UINT(), BOOL)), ARR(TUP(STRING, UINT())), FARR(TUP(BOOL, FB(4)), 2), FARR(TUP(BYTES), 2), TUP(TUP(UINT(), BYTES), BOOL), TUP(FARR(UINT(), 2), STRING), TUP(FARR(STRING, 2), UINT()), TUP(TUP(BOOL, BOOL), TUP(BOOL))]


def byte_patterns(g, n):
    """Contents in which the place of zeros and of high bytes matters."""
    if n == 0:
        return [[]]
    rnd = [g.r.randint(1, 255) for _ in range(n)]
    out = [[0] * n, [255] * n, [128] * n, rnd]
    for k in {1, n // 2, n - 1}:
        if 0 < k < n:
            out += [rnd[:k] + [0] * (n - k), [0] * k + rnd[k:], [255] * k + [0] * (n - k)]
    out += [rnd[:-1] + [0], [0] + rnd[1:], [0] * (n - 1) + [1], [1] + [0] * (n - 1), [32] * n, [48] * n]
    return out


def word_patterns(g):
    out = []
    for i in range(32):
        for b in (1, 128, 255):
            w = [0] * 32
            w[i] = b
            out.append(w)
        out.append([255] * (i + 1) + [0] * (31 - i))
        out.append([0] * i + [255] * (32 - i))
        out.append([255] * i + [g.r.randint(0, 254)] + [g.r.randint(0, 255) for _ in range(31 - i)])
    for n in g.ints:
        for m in (n - 1, n, n + 1):
            if 0 <= m < 1 << 256:
                out += [num(m), num((1 << 256) - 1 - m)]
    for k in range(0, 78):
        out.append(num(10 ** k))
    return out


def codec_sweep(g, scale):
    out = []

    def add(ts, vs):
        out.append((ts, vs))

    for n in g.sizes([40, 64, 128, 200, 255, 256, 257, 300], 1200):
        if n < 1:
            continue
        add([FARR(BOOL, n), BYTES], [V("farray", bools(n)), V("bytes", [7] * 5)])
        add([TUP(FARR(BOOL, n), STRING), UINT()], [V("tuple", [V("farray", bools(n)), V("string", [98])]), U(n)])
        add([ARR(FARR(BOOL, n)), BOOL], [V("array", [V("farray", bools(n))] * 2), V("bool", True)])
        add([ARR(BOOL), STRING], [V("array", bools(n)), V("string", [97] * 33)])
    for n in g.sizes([15, 16, 17, 32, 33, 64, 65, 100, 128, 255, 256, 257], 500):
        ss = [V("string", [97 + i % 26] * (i % 3)) for i in range(n)]
        add([ARR(STRING), BOOL], [V("array", ss), V("bool", True)])
        if n:
            add([FARR(STRING, n), BOOL], [V("farray", ss), V("bool", False)])
            add([ARR(TUP(BYTES, BOOL))], [V("array", [V("tuple", [V("bytes", s["b"]), V("bool", True)]) for s in ss[:140]])])
    for n in g.sizes([8, 19, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257], 400):
        ts = [g.r.choice([BOOL, UINT(), BYTES, STRING, FB(2), FARR(BOOL, 2)]) for _ in range(n)]
        vs = [one_each(g, t) for t in ts]
        add(ts, vs)
        if n:
            add([TUP(*ts), BYTES], [V("tuple", vs), V("bytes", [1])])
    for n in g.sizes(list(range(70, 100)) + [191, 192, 193, 287, 288, 289, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096], 6000):
        for k in ("bytes", "string"):
            v = V(k, [(i * 7 + n) % 95 + 32 for i in range(n)])
            add([T(k), BOOL], [v, V("bool", True)])
            if n < 1100:
                add([TUP(UINT(), T(k)), T(k)], [V("tuple", [U(n), v]), V(k, [98])])
                add([ARR(T(k))], [V("array", [v, V(k, []), v])])
    for d in g.sizes([4, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40], 70):
        for w in CHAINS:
            for e in (UINT(), STRING):
                t = chain(d, w, e)
                add([t, BOOL], [one_each(g, t), V("bool", True)])
    for a in PAIR:
        for b in PAIR:
            add([a, b], [g.value(a, maxlen=2), g.value(b, maxlen=2)])
            if scale >= 2:
                t = g.r.choice([lambda x: TUP(x, b), lambda x: TUP(b, x), lambda x: ARR(TUP(x, b)), lambda x: FARR(TUP(x, b), 2)])(a)
                add([t], [g.value(t, maxlen=2)])
    # contents
    for n in range(1, 33):
        ps = byte_patterns(g, n)
        add([ARR(FB(n))], [V("array", [V("fbytes", p) for p in ps])])
        p = g.r.choice(ps)
        add([FB(n), STRING], [V("fbytes", p), V("string", [])])
    ws = word_patterns(g)
    for i in range(0, len(ws), 60):
        add([ARR(UINT()), ARR(INT(8)), FARR(UINT(8), len(ws[i:i + 60]))], [V("array", [V("uint", w) for w in ws[i:i + 60]]), V("array", [V("int", w) for w in ws[i:i + 60]]), V("farray", [V("uint", w) for w in ws[i:i + 60]])])
        add([ARR(ADDRESS)], [V("array", [V("address", w[12:]) for w in ws[i:i + 60]])])
    for n in list(range(0, 36)) + [63, 64, 65]:
        for p in byte_patterns(g, n)[:: 1 if scale > 2 else 2]:
            add([BYTES, UINT()], [V("bytes", p), U(1)])
    for s in string_patterns(g):
        b = list(s.encode("utf-8"))
        add([STRING, STRING], [V("string", b), V("string", b)])
        add([ARR(STRING)], [V("array", [V("string", b), V("string", [])])])
    return out


def string_patterns(g):
    out = ["", " ", "\0", "a\0", "\0a", "a\0\0", " a", "a ", "\n", "a\n", "\t", "\r\n", "\ufeff", "\ufeffa", "a\ufeff", "\u00ad", "\u200b", "e\u0301", "\u00e9", "A", "\u0130", "\u1e9e", "\ufffd", "\ufffda", "\U0010ffff", "\ud7ff", "\ue000", "\u0080", "\u07ff", "\u0800", "\uffff", "\U00010000", "\\", "\"", "'", "{}", "%s", "${x}", "0x", "0x00", "null", "[]", "()", ",", "\u202e", "a" * 31 + "\u00e9", "a" * 30 + "\u00e9", "a" * 32 + "\u00e9", "a" * 29 + "\u20ac", "a" * 30 + "\u20ac", "a" * 31 + "\u20ac", "a" * 28 + "\U0001F600", "a" * 29 + "\U0001F600", "a" * 30 + "\U0001F600", "a" * 31 + "\U0001F600", "a" * 32 + "\0", "a" * 31 + "\0", "\0" * 32, "\0" * 33, " " * 32, "a" * 64 + " "]
    out += [s for s in g.strs if "\0" not in s or True] + ["x" + s for s in g.strs] + [s + "y" for s in g.strs]
    return out


def sweep_C01(g, scale):
    out = [("encode", dict(toks=vs)) for _, vs in codec_sweep(g, scale)]
    for n in [x for x in g.sizes([], 1 << 25) if x > 1000]:
        big = dict(k="bytes", b=norm_runs(rbytes(n, 65)))
        out.append(("bigenc", dict(toks=[big, dict(k="string", b=norm_runs(rbytes(3, 66))), U(3)])))
        out.append(("bigenc", dict(toks=[dict(k="array", ts=[big, big])])))
        out.append(("bigenc", dict(toks=[dict(k="tuple", ts=[U(1), big, dict(big)]), dict(k="bytes", b=[[1, 9]])])))
        if n <= 70000:
            z = dict(k="bool", v=False)
            out.append(("bigenc", dict(toks=[dict(k="array", ts=[z] * n), U(1)])))
            out.append(("bigenc", dict(toks=[dict(k="farray", ts=[z] * n), dict(k="bytes", b=[[1, 9]])])))
    # a long static array in front of what it moves
    for n in (2047, 2048, 2049):
        z = dict(k="uint", w=[0] * 32)
        out.append(("bigenc", dict(toks=[dict(k="farray", ts=[z] * n), dict(k="bytes", b=[[1, 9]])])))
    return out


def selector_led(g):
    """Arguments of the function f that begin with its selector."""
    for rest in ([], [UINT()], [STRING], [BOOL, ARR(UINT())]):
        for first in (UINT(), INT(), FB(32), FB(4), FB(8), FARR(FB(4), 2), TUP(FB(32), BOOL)):
            ts = [first] + rest
            sel = list(keccak256(text("f(%s)" % ",".join(type_name(t) for t in ts))))[:4]
            for w in (sel + [0] * 28, sel + [0] * 27 + [32], sel * 8):
                leaf = lambda t: dict(k=t["k"], w=w) if t["k"] in ("uint", "int") else dict(k="fbytes", b=w[:t["n"]])
                v = dict(k="farray", ts=[leaf(FB(4))] * 2) if first["k"] == "farray" else dict(k="tuple", ts=[leaf(FB(32)), dict(k="bool", v=True)]) if first["k"] == "tuple" else leaf(first)
                yield ts, [v] + [g.value(t, maxlen=2) for t in rest], sel


def sweep_C02(g, scale):
    out = []
    for ts, vs in codec_sweep(g, scale):
        out.append(("rt", dict(types=ts, toks=vs, tail=g.r.choice([[], [1], [0] * 32]))))
    for ts, vs, sel in selector_led(g):
        for tail in ([], [0] * 4, sel, sel + [0] * 28, [0] * 28 + sel, [255] * 31, [1]):
            out.append(("rt", dict(types=ts, toks=vs, tail=tail)))
    for n in [x for x in g.sizes([2047, 2048, 2049], 1 << 25) if x > 1000]:
        big = dict(k="string", b=norm_runs(rbytes(n, 65)))
        b9 = dict(k="bytes", b=[[1, 9]])
        out.append(("bigrt", dict(types=[STRING, BYTES], toks=[big, b9])))
        out.append(("bigrt", dict(types=[ARR(STRING), BYTES], toks=[dict(k="array", ts=[big, big]), b9])))
        if n <= 70000:
            z = dict(k="uint", w=[0] * 32)
            out.append(("bigrt", dict(types=[ARR(UINT()), BYTES], toks=[dict(k="array", ts=[z] * n), b9])))
            out.append(("bigrt", dict(types=[FARR(UINT(), n), BYTES], toks=[dict(k="farray", ts=[z] * n), b9])))
    return out


# ---- decoding ----
def dirty_words(g):
    """(word, its low byte): every byte of a word that has to be clean, and prefixes of it."""
    for low in (0, 1):
        for i in range(31):
            for b in (1, 128, 255):
                w = [0] * 31 + [low]
                w[i] = b
                yield w
            yield [255] * (i + 1) + [0] * (30 - i) + [low]
            yield [0] * i + [1] * (31 - i) + [low]


def dirty_headers(base):
    """A header word of value base with something in the bytes above."""
    for i in range(29):
        for b in (1, 128, 255):
            w = num(base)
            w[i] |= b
            yield w
        w = num(base)
        for j in range(i + 1):
            w[j] = 255
        yield w
        w = num(base)
        for j in range(i, 28):
            w[j] = 255
        yield w


def enc_loose(g, vs, depth=0):
    """An encoding a contract might produce that ours does not: gaps, tails in another order, shared tails, dirty padding."""
    r = g.r
    bodies = [loose1(g, v, depth) for v in vs]
    dyn = [tok_dynamic(v) for v in vs]
    hl = sum(32 if d else len(b) for d, b in zip(dyn, bodies))
    order = [i for i, d in enumerate(dyn) if d]
    if r.random() < 0.5:
        r.shuffle(order)
    at, tail, seen = {}, [], {}
    for i in order:
        key = bytes(bodies[i])
        if key in seen and r.random() < 0.5:
            at[i] = seen[key]
            continue
        tail += [r.choice([0, 0, 255, 1])] * r.choice([0, 0, 0, 32, 1, 31, 64, 7])
        at[i] = hl + len(tail)
        seen[key] = at[i]
        tail += bodies[i]
    h = []
    for i, (d, b) in enumerate(zip(dyn, bodies)):
        h += num(at[i]) if d else b
    return h + tail


def loose1(g, v, depth):
    k = v["k"]
    if k == "fbytes":
        n = -len(v["b"]) % 32
        return list(v["b"]) + [g.r.choice([0, 0, 255, 1])] * n
    if k == "address":
        return [g.r.choice([0, 0, 255])] * 12 + v["w"]
    if k in ("bytes", "string"):
        n = -len(v["b"]) % 32
        return num(len(v["b"])) + list(v["b"]) + [g.r.choice([0, 0, 255, 171])] * g.r.choice([n, n, n + 32])
    if k == "array":
        return num(len(v["ts"])) + enc_loose(g, v["ts"], depth + 1)
    if k in ("farray", "tuple"):
        return enc_loose(g, v["ts"], depth + 1)
    return enc1(v)


def sweep_C03(g, scale):
    out = []
    vias = itertools.cycle(["plain", "fn_in", "fn_out"])

    def add(ts, d):
        out.append(("decode", dict(types=ts, data=d, via=next(vias))))

    # the selector of the function at the front, or what looks like it
    for ts, vs, sel in selector_led(g):
        d = enc(vs)
        for x in (d, d + sel, sel + d, sel + d[:-4], d + [0] * 4, sel, sel + [0] * 32):
            for via in ("fn_in", "fn_out"):
                out.append(("decode", dict(types=ts, data=x, via=via)))
    ones = num(1)
    for i, w in enumerate(dirty_words(g)):
        add([BOOL], w)
        c = [([UINT(), BOOL], num(7) + w), ([FARR(BOOL, 2)], ones + w), ([ARR(BOOL)], num(32) + num(2) + w + ones), ([TUP(BOOL, UINT())], w + num(3)),
             ([TUP(STRING, BOOL)], num(32) + num(64) + w + num(1) + pad([97])), ([ARR(TUP(BOOL, BOOL))], num(32) + num(1) + ones + w), ([STRING, BOOL], num(64) + w + num(0))]
        for j in ([i % len(c)] if scale < 4 else range(len(c))):
            add(*c[j])
    for i, w in enumerate(itertools.chain(dirty_headers(32))):
        add([BYTES], w + num(3) + pad([1, 2, 3]))
        add([ARR(UINT())], w + num(1) + num(5))
        add([TUP(STRING, BOOL)], w + num(64) + num(1) + num(1) + pad([97]))
        add([FARR(BYTES, 1)], w + num(32) + num(1) + pad([8]))
        add([ARR(STRING)], num(32) + num(1) + w + num(1) + pad([97]))
        add([TUP(BYTES)], num(32) + w + num(1) + pad([97]))
        add([FARR(STRING, 2)], num(32) + num(64) + w + num(1) + pad([97]))
    for w in dirty_headers(3):
        add([BYTES], num(32) + w + pad([1, 2, 3]))
        add([STRING], num(32) + w + pad([97, 98, 99]))
        add([ARR(BYTES)], num(32) + num(1) + num(32) + w + pad([1, 2, 3]))
        add([TUP(UINT(), STRING)], num(32) + num(9) + num(64) + w + pad([97] * 3))
    for w in dirty_headers(1):
        add([ARR(UINT())], num(32) + w + num(5))
        add([ARR(ARR(UINT()))], num(32) + num(1) + num(32) + w + num(5))
        add([ARR(STRING)], num(32) + w + num(32) + num(1) + pad([97]))
        add([TUP(ARR(BOOL), BOOL)], num(32) + num(64) + num(1) + w + num(1))
    for w in dirty_headers(0):
        add([ARR(UINT())], num(32) + w)
        add([ARR(STRING)], num(32) + w + num(0))
        add([BYTES], num(32) + w)
        add([ARR(UINT()), BOOL], w + num(0))
    # words that need not be clean
    for i in range(32):
        for b in (1, 128, 255):
            w = [0] * 32
            w[i] = b
            add([ADDRESS, FB(i + 1), FB(max(1, i)), UINT(8), INT(8), INT(248)], w * 6)
    for n in range(1, 33):
        add([FB(n), TUP(FB(n)), FARR(FB(n), 2)], [255] * 128)
        add([ARR(FB(n))], num(32) + num(1) + [g.r.randint(0, 255) for _ in range(32)])
    # every claim at every header of these
    deep = [[BYTES], [STRING], [ARR(UINT())], [ARR(BYTES)], [ARR(TUP(STRING, UINT()))], [FARR(BYTES, 2)], [TUP(BYTES, ARR(UINT()))], [ARR(ARR(STRING))], [UINT(), BYTES, ARR(BOOL)], [TUP(TUP(STRING)), BOOL], [ARR(FARR(UINT(), 2))], [ARR(FARR(STRING, 1))]]
    for ts in deep:
        vs = [V("array", [g.value(t["t"], maxlen=1), g.value(t["t"], maxlen=1)]) if t["k"] == "array" else g.value(t, maxlen=1) for t in ts]
        d = enc(vs)
        for _, p, base in headers(ts, d):
            n = len(d)
            cl = set(g.sizes(CLAIMS, 1 << 256)) | {n, n - 1, n - 31, n - 32, n - 33, n + 1, n - base, n - base - 1, n - base - 31, n - base - 32, n - base - 33, n - base - 64, n - base + 1, (n - base) // 32, (n - base) // 32 - 1, (n - base) // 32 + 1, p, p + 32, p - 32, (1 << 256) - base, (1 << 64) - base, (1 << 32) - base, (1 << 32) + 32, (1 << 64) + 64, (1 << 59), (1 << 27), (1 << 61) + 1}
            cl = sorted(c for c in cl if c >= 0)
            for c in cl if scale >= 4 else cl[g.r.randint(0, 1)::2]:
                add(ts, put(d, p, num(c % (1 << 256))))
    # every truncation
    for ts in deep + [[FB(5)], [BOOL], [ADDRESS, UINT()], [FARR(UINT(), 3)], [TUP(UINT(), BOOL)], [FARR(TUP(BOOL, FB(2)), 2)]]:
        d = enc([g.value(t, maxlen=2) for t in ts])
        for n in range(len(d)) if len(d) < 130 else [x for x in range(len(d)) if x % 32 in (0, 1, 31) or x > len(d) - 34]:
            add(ts, d[:n])
    # other encodings of the same values
    for _ in range(int(220 * scale)):
        ts = g.types(g.r.choice([1, 2, 3]), 1, 3)
        vs = g.values(ts, maxlen=2)
        d = enc_loose(g, vs)
        if len(d) < 2500:
            add(ts, d)
    for a in PAIR:
        add([a, STRING], enc_loose(g, [g.value(a, maxlen=2), V("string", [97, 98])]))
        add([ARR(a)], enc_loose(g, [V("array", [g.value(a, maxlen=1), g.value(a, maxlen=1)])]))
    # long lists, wide structs, deep nests
    for n in g.sizes([33, 64, 128, 255, 256, 257, 300], 700):
        add([ARR(BOOL)], num(32) + num(n) + num(1) * n)
        add([ARR(BOOL)], num(32) + num(n + 1) + num(1) * n)
        add([ARR(UINT()), BOOL], num(64) + num(1) + num(n) + num(n) * max(0, n - 1))
        if n:
            add([FARR(BOOL, n)], num(1) * n)
            add([FARR(BOOL, n)], num(1) * (n - 1) + num(0)[1:])
            add([TUP(*[BOOL] * n), STRING], num(0) * n + num(32 * n + 32) + num(1) + pad([97]))
        add([BYTES], num(32) + num(n) + [9] * n)
        add([BYTES], num(32) + num(n) + [9] * (n - 1))
        add([STRING], num(32) + num(n) + [97] * n + [0] * (-n % 32) + [1])
    for d in g.sizes([5, 8, 9, 12, 16, 17, 20, 31, 32, 33, 40], 70):
        for w in CHAINS:
            t = chain(d, w, STRING)
            e = enc([one_each(g, t)])
            add([t], e)
            add([t], e[:-1])
            hs = headers([t], e)
            if hs:
                _, p, base = g.r.choice(hs)
                add([t], put(e, p, num(g.r.choice([0, 31, 33, len(e), len(e) + 1, 1 << 31]))))
    for s in UTF8:
        for k in (0, 29, 30, 31, 32):
            b = [97] * k + list(s)
            add([STRING, UINT()], num(64) + num(7) + num(len(b)) + pad(b))
    for n in [x for x in g.sizes([], 1 << 25) if x > 700]:
        d = norm_runs([[1, x] for x in num(32) + num(n)] + [[n, 65]])
        out.append(("bigdec", dict(types=[BYTES], data=d)))
        out.append(("bigdec", dict(types=[STRING], data=norm_runs([[1, x] for x in num(32) + num(n)] + [[n - 1, 65]]))))
        if n < 70000:
            out.append(("bigdec", dict(types=[ARR(UINT())], data=norm_runs([[1, x] for x in num(32) + num(n)] + [[32 * n, 0]]))))
            out.append(("bigdec", dict(types=[ARR(UINT())], data=norm_runs([[1, x] for x in num(32) + num(n)] + [[32 * n - 1, 0]]))))
    return out


def sweep_C04(g, scale):
    out = []
    vias = itertools.cycle(["plain", "fn_in", "fn_out", "log"])

    def add(ts, d, runs=False):
        out.append(("cost", dict(types=ts, data=d, runs=runs, via=next(vias))))

    def R(*parts):
        return norm_runs([x for p in parts for x in ([[1, b] for b in p] if not p or isinstance(p[0], int) else p)])

    # as many elements as there are words, each of them empty or failing late
    for mb in (1, 8) if scale < 4 else (1, 4, 16):
        n = mb << 20
        for t in (ARR(UINT()), BYTES, STRING, TUP(STRING), FARR(BYTES, 1), ARR(ARR(UINT())), TUP(UINT(), BYTES), FARR(UINT(), 4), TUP(UINT(), UINT())):
            for k in (300, 2500):
                # k heads that are zero: every one points at zeros
                add([ARR(t)], R(num(32), num(k), [[n, 0]]), True)
        add([BYTES, STRING, BYTES], R(num(96), num(96), num(96), num(n - 200), [[n, 7]]), True)
        add([ARR(BYTES)], R(num(32), num(3), num(96), num(96), num(96), num(n - 300), [[n, 7]]), True)
        add([BOOL], R([[n, 0]]), True)
        add([UINT(), BYTES], R(num(1), num(64), num(n + 1), [[n, 1]]), True)
        add([UINT(), BYTES], R(num(1), num(64), num(n), [[n, 1]]), True)
        add([FARR(UINT(), 3), STRING], R([[n, 0]]), True)
        add([TUP(BYTES, TUP(STRING, ARR(BYTES)))], R([[n, 0]]), True)
    # deep types over much data
    for d in (10, 30, 60):
        for w in CHAINS:
            t = chain(d, w, g.r.choice([UINT(), STRING]))
            add([t], R([[1 << 20, 0]]), True)
            if ARR not in w:      # 32 elements at every level otherwise
                add([t], R(*[num(32)] * (2 * d + 2), [[1 << 20, 0]]), True)
            add([t], R(*[num(32), num(1)] * (d + 1), [[1 << 20, 0]]), True)
            e = enc([one_each(g, t)])
            add([t], R(e, [[1 << 20, 0]]), True)
            add([t], e)
    # fixed arrays and structs that are larger than the data: to set aside what the type says is no offence
    for n in g.sizes([100, 1000], 4096):
        for t in (UINT(), STRING, BYTES, FARR(UINT(), 1000), TUP(UINT(), STRING), ARR(UINT())):
            add([FARR(t, max(1, n))], num(32) + num(0) + words(g, 3))
            add([ARR(FARR(t, max(1, n)))], num(32) + num(1) + num(32) + words(g, 3))
    for c in g.sizes([], 1 << 256):
        for t in (BYTES, STRING, ARR(UINT()), ARR(BYTES), ARR(TUP(UINT(), BOOL))):
            add([t], num(32) + num(c) + words(g, 4))
            add([t], num(c) + words(g, 4))
            add([t], R(num(32), num(c), [[1 << 20, 0]]), True)
    return out


# ---- ill-typed ----
def sweep_C05(g, scale):
    out = []
    ts = matrix(False)
    vs = [g.value(t, maxlen=1) for t in ts]
    # an array that is not empty
    for i, t in enumerate(ts):
        if t["k"] == "array":
            vs[i] = V("array", [g.value(t["t"], maxlen=1)])
    step = 45
    for v in vs:
        for k in range(0, len(ts), step):
            part = ts[k:k + step]
            out.append(("check", dict(types=part, toks=[v] * len(part))))
    deep = matrix(True)[len(ts):]
    dv = [one_each(g, t) for t in deep]
    for v in dv if scale >= 4 else dv[::3]:
        part = g.r.sample(deep, 30)
        out.append(("check", dict(types=part, toks=[v] * len(part))))
    # one wrong element, at every place of a list
    wrong = [V("bool", True), V("int", num(1)), V("bytes", [1]), V("array", []), V("tuple", [U(1)]), V("fbytes", [1] * 32), V("address", [1] * 20), V("string", [97])]
    for n in g.sizes([1, 2, 3, 5, 8, 16, 17, 32, 33, 64, 65, 100, 128, 255, 256, 257], 700):
        if not n:
            continue
        us = [U(i) for i in range(n)]
        for p in sorted({0, n // 2, n - 1, min(1, n - 1), max(0, n - 2)} | {g.r.randrange(n) for _ in range(2)}):
            w = g.r.choice(wrong)
            bad = us[:p] + [w] + us[p + 1:]
            for t, k in ((ARR(UINT()), "array"), (FARR(UINT(), n), "farray"), (TUP(*[UINT()] * n), "tuple")):
                out.append(("check", dict(types=[t], toks=[V(k, bad)])))
                out.append(g.r.choice([("call", dict(name=text("f"), types=[t], outs=[], toks=[V(k, bad)])), ("create", dict(types=[t], code=[1], toks=[V(k, bad)]))]))
            out.append(("check", dict(types=[UINT()] * n, toks=bad)))
            if n < 70:
                out.append(("call", dict(name=text("f"), types=[UINT()] * n, outs=[], toks=bad)))
                out.append(("create", dict(types=[UINT()] * n, code=[], toks=bad)))
        for m in {n - 1, n, n + 1, 2 * n, 0}:
            ms = [U(i) for i in range(m)]
            out.append(("check", dict(types=[UINT()] * n, toks=ms)))
            out.append(("check", dict(types=[FARR(UINT(), n)], toks=[V("farray", ms)])) if m else ("check", dict(types=[ARR(UINT())], toks=[V("array", [])])))
            if m:
                out.append(("check", dict(types=[TUP(*[UINT()] * n)], toks=[V("tuple", ms)])))
            if n < 70:
                out.append(("call", dict(name=text("f"), types=[UINT()] * n, outs=[], toks=ms)))
                out.append(("create", dict(types=[UINT()] * n, code=[1, 2], toks=ms)))
    # deep inside
    for d in g.sizes([1, 2, 3, 4, 6, 8, 12, 16, 17, 33], 60):
        for w in CHAINS:
            t = chain(d, w, UINT())
            v = one_each(g, t)
            out.append(("check", dict(types=[t], toks=[v])))
            b = one_each(g, chain(d, w, g.r.choice([INT(), BOOL, BYTES])))
            out.append(("check", dict(types=[t], toks=[b])))
            out.append(("call", dict(name=text("f"), types=[t], outs=[], toks=[b])) if d < 9 else ("create", dict(types=[t], code=[], toks=[b])))
            out.append(("create", dict(types=[t], code=[5], toks=[v])))
            out.append(("check", dict(types=[t], toks=[one_each(g, chain(d - 1, w, UINT()))])))
    for n in range(1, 33):
        ms = [m for m in range(0, 34)]
        out.append(("check", dict(types=[FB(n)] * len(ms), toks=[V("fbytes", [171] * m) for m in ms])))
        for m in {0, n - 1, n, n + 1, 32, 33} - {-1}:
            out.append(("create", dict(types=[FB(n)], code=[], toks=[V("fbytes", [0] * m)])))
            out.append(("check", dict(types=[FB(n), ARR(FB(n)), FARR(FB(n), 2)], toks=[V("fbytes", [0] * m), V("array", [V("fbytes", [1] * n), V("fbytes", [0] * m)]), V("farray", [V("fbytes", [7] * m), V("fbytes", [1] * n)])])))
    # widths are not looked at, signs are
    for n in range(8, 257, 8):
        out.append(("check", dict(types=[UINT(n), INT(n), INT(n), UINT(n)], toks=[V("uint", [255] * 32), V("int", [255] * 32), V("uint", num(1)), V("int", num(1))])))
    # values and types in the other order, values of one parameter split or joined
    for a in PAIR[::2]:
        for b in PAIR[1::2]:
            x, y = one_each(g, a), one_each(g, b)
            for toks in ([y, x], [x], [x, y, y], [V("tuple", [x, y])], [V("array", [x, y])]):
                out.append(("check", dict(types=[a, b], toks=toks)))
    for n in (0, 1, 31, 32, 33, 64, 100, 1000):
        ts2 = [STRING, UINT()]
        out.append(("create", dict(types=ts2, code=[(i * 3) % 256 for i in range(n)], toks=[V("string", [97] * 5), U(2)])))
        out.append(("create", dict(types=[], code=[255] * n, toks=[])))
        out.append(("create", dict(types=[], code=[255] * n, toks=[U(1)])))
    # creation code that ends like its arguments, or is them
    for ts, vs, sel in selector_led(g):
        e = enc(vs)
        for code in (e, [1, 2] + e, sel, e + e, e + [0] * 4, [0] * 32, e[:-1]):
            out.append(("create", dict(types=ts, code=code, toks=vs)))
        out.append(("call", dict(name=text("f"), types=ts, outs=[], toks=vs)))
    return out


NAMEPATS = ["", "a", "A", "aB", "_", "__", "_a", "a_", "a_b", "$", "$a", "a$b", "0", "0a", "a0", "a b", " a", "a ", "a.b", "a-b", "a,b", "a[]", "\u00e9", "\u00c9", "e\u0301", "\u4e2d\u6587", "\U0001F600", "\u0130", "\ufeffa", "a\0b", "\n", "\"", "\\", "'", "{}", "transfer", "Transfer", "TRANSFER", "constructor", "fallback", "receive", "function", "event", "tuple", "uint256", "uint", "type", "self", "x" * 31, "x" * 32, "x" * 33, "x" * 64, "x" * 100, "x" * 200, "x" * 255, "x" * 256, "x" * 257, "x" * 300]


def sweep_C06(g, scale):
    out = []

    def both(name, ts, outs=()):
        nm = text(name) if isinstance(name, str) else name
        out.append(("call", dict(name=nm, types=ts, outs=list(outs), toks=[small_value(g, t) for t in ts])))
        out.append(("evsig", dict(ev=dict(name=nm, inputs=[dict(name=text("p"), kind=t, indexed=False) for t in ts], anonymous=False))))
        out.append(("fnsig", dict(name=nm, ins=ts, outs=list(outs))))

    for s in NAMEPATS + g.strs:
        both(s, [UINT()])
    for w in range(8, 257, 8):
        both("w", [UINT(w)] if w % 16 else [INT(w)])
        out.append(("fnsig", dict(name=text("w"), ins=[UINT(w), INT(w), ARR(UINT(w)), FARR(INT(w), w), TUP(INT(w))], outs=[UINT(w)])))
    for n in range(1, 33):
        out.append(("fnsig", dict(name=text("b"), ins=[FB(n), ARR(FB(n)), TUP(FB(n), BYTES)], outs=[FB(n)])))
        both("b", [FB(n)])
    for n in g.sizes([1, 2, 9, 10, 11, 16, 31, 32, 33, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 1001, 65535, 65536, 65537, 99999999], (1 << 31) - 1):
        if n:
            ev = dict(name=text("s"), inputs=[dict(name=text("p"), kind=FARR(UINT(), n), indexed=n % 2 == 0)], anonymous=False)
            out.append(("evsig", dict(ev=ev)))
            out.append(("fnsig", dict(name=text("s"), ins=[FARR(UINT(), n), ARR(FARR(TUP(BOOL, FARR(STRING, n)), 2))], outs=[FARR(BOOL, n)])))
    for n in g.sizes([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 64], 200):
        ts = [[UINT(), BOOL, STRING, ADDRESS, BYTES][i % 5] for i in range(n)]
        both("n", ts)
        if n:
            both("t", [TUP(*ts)])
        out.append(("fnsig", dict(name=text("o"), ins=[], outs=ts)))
    for d in g.sizes([2, 3, 4, 5, 6, 8, 10, 16, 17, 32], 60):
        for w in CHAINS:
            out.append(("fnsig", dict(name=text("d"), ins=[chain(d, w, UINT())], outs=[chain(d, w, BYTES)])))
        both("d", [chain(d, g.r.choice(CHAINS), g.r.choice([UINT(), STRING]))])
    # the length of the hashed text, all around a block
    for n in g.sizes(list(range(128, 144)) + list(range(264, 280)) + [400, 407, 408, 409], 1200):
        s = "(uint256)"
        if n > len(s):
            out.append(("evsig", dict(ev=dict(name=text("n" * (n - len(s))), inputs=[dict(name=text("p"), kind=UINT(), indexed=False)], anonymous=n % 2 == 0))))
    for t in matrix():
        out.append(("evsig", dict(ev=dict(name=text("M"), inputs=[dict(name=text("p"), kind=t, indexed=g.r.random() < 0.3)], anonymous=g.r.random() < 0.3))))
    # which params are indexed and what they are called does not count
    for mask in range(8):
        for anon in (False, True):
            out.append(("evsig", dict(ev=dict(name=text("I"), inputs=[dict(name=text(g.r.choice(["", "a", "b"])), kind=k, indexed=bool(mask >> i & 1)) for i, k in enumerate([UINT(), TUP(STRING, BOOL), ARR(BYTES)])], anonymous=anon))))
    return out


def sweep_C07(g, scale):
    out = []

    def rd(s, via=None):
        out.append(("read", dict(text=text(s), via=via or g.r.choice(["reader", "reader", "json"]))))

    def wr(t):
        out.append(("write", dict(type=t)))

    for n in g.sizes(list(range(1, 40)) + [63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 16777216, 99999999, 2147483647], (1 << 31) - 1):
        if n:
            wr(FARR(BOOL, n))
            wr(ARR(FARR(TUP(STRING, FARR(UINT(8), n)), n)))
            rd("(bool[%d],string)[%d][]" % (n, n)) if n < 1000000000 else None
    for t in (FARR(BOOL, 0), FARR(STRING, 0), FARR(TUP(UINT(8)), 0)):
        for w in (lambda x: x, ARR, lambda x: FARR(x, 0), lambda x: FARR(x, 3), lambda x: TUP(x), lambda x: TUP(BOOL, x), lambda x: ARR(ARR(x)), lambda x: ARR(TUP(x, x)), lambda x: FARR(ARR(x), 0)):
            wr(w(t))
    for n in g.sizes(list(range(0, 300, 1)), 1000):
        for p in ("uint", "int"):
            if n % 8 == 0 or g.r.random() < 0.2 or n in g.ints:
                rd("%s%d" % (p, n))
    for n in range(0, 40):
        rd("bytes%d" % n)
        rd("bytes%d[]" % n)
    sfx = ["", "[]", "[2]", "[10]"]
    for b in ("bool", "uint", "int8", "(bool)", "(bool,string)", "bytes3", "tuple", "((uint),(string))", "address", "bytes", "string"):
        for k in (1, 2, 3):
            for c in itertools.product(sfx[1:], repeat=k):
                if k < 3 or g.r.random() < 0.4:
                    rd(b + "".join(c))
    for d in g.sizes([1, 2, 3, 4, 5, 8, 9, 16, 17, 20, 31, 32, 33, 40], 80):
        for w in CHAINS + [[lambda x: TUP(TUP(x), BOOL)], [lambda x: TUP(BOOL, x, ARR(STRING))]]:
            t = chain(d, w, g.r.choice([UINT(), STRING, FB(7)]))
            if len(type_name(t)) < 900:
                wr(t)
                rd(type_name(t))
        rd("(" * d + "bool" + ")" * d)
        rd("(" * d + "bool" + ")" * (d - 1))
        rd("(" * d + "bool" + ")" * (d + 1))
        rd("bool" + "[]" * d)
        rd("bool" + "[]" * d + "]")
        rd("(" * d)
        rd(")" * d)
        rd("[" * d)
        rd("]" * d)
        rd("[]" * d)
    for n in g.sizes([1, 2, 3, 5, 8, 16, 17, 32, 33, 64, 100, 255, 256, 257], 400):
        if n:
            wr(TUP(*[[BOOL, UINT(), ARR(STRING)][i % 3] for i in range(n)]))
            rd("(" + ",".join(["bool", "uint256", "string[]"][i % 3] for i in range(n)) + ")")
            rd("(" + ",".join(["bool", "(uint,bytes)"][i % 2] for i in range(n)) + ")[3]")
    # every small text
    toks = ["(", ")", "[", "]", ",", "bool", "2"]
    for k in range(1, 6 if scale < 4 else 7):
        for c in itertools.product(toks, repeat=k):
            s = "".join(c)
            if k >= 5 and (g.r.random() < (0.93 if k == 5 else 0.985)):
                continue
            rd(s, "reader")
    # one character more, less or other in these
    for s in ["uint256", "int8", "bytes32", "bool[3]", "(bool,string)[]", "address[2][]", "((uint8,bool),string)", "tuple[]", "string", "bytes"]:
        for i in range(len(s) + 1):
            for ch in "()[],0 1x-\u00e9U\t_" + "".join(x for x in g.strs if len(x) == 1):
                if g.r.random() < 0.6 * min(1, scale / 2):
                    rd(s[:i] + ch + s[i:])
                    rd(s[:i] + ch + s[i + 1:])
            if i < len(s):
                rd(s[:i] + s[i + 1:])
                rd(s[:i])
                rd(s[i:])
                rd(s[:i] + s[i].upper() + s[i + 1:])
    for s in g.strs:
        for x in (s, s + "[]", "(" + s + ")", "bool" + s, s + "bool", "(bool," + s + ")", "uint" + s, "bool[" + s + "]"):
            rd(x)
    return [(op, a) for op, a in out if op != "read" or readable_text("".join(map(chr, a["text"])))]


def readable_text(s):
    """No number of ten to twenty digits: what those mean depends on the machine word."""
    import re
    return all(len(m.lstrip("0")) < 10 or len(m.lstrip("0")) > 20 for m in re.findall(r"[0-9]+", s))


# ---- documents ----
INTERNALS = ["", "uint256", "uint", "tuple", "tuple[]", "bool", "string", "bytes", "address", "address payable", "struct C.S", "struct C.S[]", "struct S[2]", "contract X", "enum E", "function (uint256) external", "struct", "(uint256)", "\u00e9", "type", "contract uint256", "X", "null", "a" * 80]


def fn_decl(g, name="f", ins=(), outs=(), constant=False, mut="view"):
    return dict(name=text(name), inputs=list(ins), outputs=list(outs), constant=constant, mutability=text(mut))


def par(name, t, internal=None):
    return dict(name=text(name), kind=t, internal=[text(internal)] if internal is not None else [])


def evp(name, t, ix=False):
    return dict(name=text(name), kind=t, indexed=ix)


def iface(**kw):
    c = dict(ctor=[], fns=[], evs=[], fallback=False, receive=False)
    c.update(kw)
    return c


STRUCTS = [TUP(UINT()), TUP(BOOL, STRING), TUP(TUP(UINT(), BYTES), ADDRESS), ARR(TUP(BOOL, UINT(8))), FARR(TUP(STRING), 2), TUP(ARR(TUP(BOOL))), ARR(ARR(TUP(FB(2), BOOL))), TUP(UINT(), FARR(ARR(TUP(BOOL, TUP(STRING))), 2))]


def iface_sweep(g, scale):
    out = []
    for s in INTERNALS + g.strs:
        for t in (UINT(), TUP(UINT(), BOOL), ARR(TUP(STRING)), STRING):
            nm = g.r.choice(["", "a"])
            out.append(iface(ctor=[dict(inputs=[par(nm, t, s)])], fns=[fn_decl(g, "f", [par("x", t, s), par("y", BOOL)], [par("", t, s)])]))
    for t in matrix(False) + STRUCTS:
        s = type_name(t)
        out.append(iface(fns=[fn_decl(g, "f", [par("a", t, s), par("b", t, abi_name(t)), par("c", t, "struct S")], [par("", t, s)])], ctor=[dict(inputs=[par("k", t, s)])]))
    names = NAMEPATS + g.strs
    for i, s in enumerate(names):
        if "(" in s:
            continue
        out.append(iface(fns=[fn_decl(g, s, [par(s, UINT())], [par(s, TUP(BOOL))]), fn_decl(g, s, []), fn_decl(g, s + "x", [])], evs=[dict(name=text(s), inputs=[evp(s, BOOL, i % 2 == 0)], anonymous=i % 3 == 0)]))
    for n in g.sizes([1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65], 300):
        # overloads, told apart by their mutability and types
        fns = [fn_decl(g, "f", [par("a%d" % j, [UINT(), BOOL, STRING][(i + j) % 3]) for j in range(i % 4)], [], i % 2 == 0, ["pure", "view", "payable", "nonpayable"][i % 4]) for i in range(n)]
        evs = [dict(name=text("E"), inputs=[evp("a%d" % i, UINT(8 * (i % 32) + 8), i % 2 == 0)], anonymous=i % 3 == 0) for i in range(n)]
        out.append(iface(fns=fns, evs=evs))
        # many names
        out.append(iface(fns=[fn_decl(g, "f%d" % i, [par("a", UINT())] * (i % 2)) for i in range(n)], evs=[dict(name=text("E%d" % i), inputs=[], anonymous=i % 2 == 0) for i in range(n)], fallback=n % 2 == 0, receive=n % 3 == 0))
        # many params
        ps = [par("p%d" % i, [UINT(), TUP(BOOL), ARR(STRING)][i % 3]) for i in range(n)]
        out.append(iface(ctor=[dict(inputs=ps)], fns=[fn_decl(g, "f", ps, ps[::-1])], evs=[dict(name=text("E"), inputs=[evp("q%d" % i, [UINT(), TUP(BOOL), ARR(STRING)][i % 3], i % 5 == 0) for i in range(n)], anonymous=False)]))
        # many members
        out.append(iface(fns=[fn_decl(g, "f", [par("s", TUP(*[[UINT(), TUP(BOOL, STRING), ARR(BYTES)][i % 3] for i in range(n)]))])]) if n else iface())
    for d in g.sizes([2, 3, 4, 5, 6, 8, 10, 12, 16, 17], 40):
        for w in [[TUP], [TUP, ARR], [lambda x: TUP(BOOL, x)], [lambda x: TUP(x, STRING), lambda x: FARR(x, 2)], [ARR], [lambda x: FARR(x, 3), ARR]]:
            t = chain(d, w, g.r.choice([UINT(), TUP(BOOL, BYTES)]))
            out.append(iface(fns=[fn_decl(g, "f", [par("s", t)], [par("", t, "x")])], evs=[dict(name=text("E"), inputs=[evp("s", t, d % 2 == 0)], anonymous=False)], ctor=[dict(inputs=[par("z", t)])]))
    for m in ("pure", "view", "nonpayable", "payable"):
        for k in (False, True):
            out.append(iface(fns=[fn_decl(g, "f", [], [], k, m)], fallback=k, receive=not k))
    for n in range(1, 33):
        out.append(iface(fns=[fn_decl(g, "f", [par("a", FB(n)), par("b", UINT(8 * n)), par("c", INT(8 * n)), par("d", FARR(BOOL, n))], [par("", ARR(FB(n)))])]))
    for n in g.sizes([99, 100, 255, 256, 1000, 65535, 65536, 99999999], 10 ** 9 - 1):
        if n:
            out.append(iface(fns=[fn_decl(g, "f", [par("d", FARR(TUP(BOOL), n))], [par("d", ARR(FARR(UINT(), n)))])], evs=[dict(name=text("E"), inputs=[evp("d", FARR(TUP(BOOL), n), True)], anonymous=False)]))
    return out


def permuted_docs(g, scale):
    """Every order of the keys of a parameter, of an entry."""
    out = []
    for t in STRUCTS[:6] + [UINT(), ARR(STRING)]:
        base = Docs(g, plain=True).kind(t)
        keys = base + [("name", S("a")), ("internalType", S("struct S"))]
        ekeys = base + [("name", S("a")), ("indexed", B(True))]
        perms = list(itertools.permutations(range(len(keys))))
        for p in perms if len(perms) < 30 else g.r.sample(perms, 24):
            a = O([keys[i] for i in p])
            fn = O([("type", S("function")), ("name", S("f")), ("inputs", A([a])), ("outputs", A([a]))])
            b = O([ekeys[i] for i in p])
            ev = O([("type", S("event")), ("name", S("E")), ("inputs", A([b])), ("anonymous", B(False))])
            m = O([("type", S("tuple[]")), ("name", S("o")), ("components", A([a, O([("type", S("bool"))])]))])
            fn2 = O([("type", S("function")), ("name", S("g")), ("inputs", A([m])), ("outputs", A([]))])
            out.append(A([fn, ev, fn2]))
    p1 = O([("name", S("a")), ("type", S("tuple")), ("components", A([O([("type", S("bool"))])]))])
    fk = [("type", S("function")), ("name", S("f")), ("inputs", A([p1])), ("outputs", A([])), ("constant", B(True)), ("stateMutability", S("view"))]
    perms = list(itertools.permutations(range(6)))
    for p in g.r.sample(perms, 40 if scale < 4 else 300):
        ek = [("type", S("event")), ("name", S("E")), ("inputs", A([p1])), ("anonymous", B(True))]
        q = [i for i in p if i < 4]
        out.append(A([O([fk[i] for i in p]), O([ek[i] for i in q]), O([[("type", S("constructor")), ("inputs", A([p1]))][i] for i in p if i < 2])]))
    # every key missing, every key twice, every key with every kind of value
    fe = dict(fn=fk, ev=[("type", S("event")), ("name", S("E")), ("inputs", A([p1])), ("anonymous", B(True))], ctor=[("type", S("constructor")), ("inputs", A([p1]))], fb=[("type", S("fallback")), ("stateMutability", S("payable"))], rc=[("type", S("receive"))],
              par=[("name", S("a")), ("type", S("tuple")), ("components", A([O([("type", S("bool"))])])), ("internalType", S("struct S"))], evp=[("name", S("a")), ("type", S("tuple[2]")), ("components", A([O([("type", S("bool"))])])), ("indexed", B(True))],
              mem=[("name", S("a")), ("type", S("tuple[]")), ("components", A([O([("type", S("bool"))])])), ("internalType", S("struct S"))])

    def place(kind, kvs):
        o = O(kvs)
        if kind == "par":
            return A([O([("type", S("function")), ("name", S("f")), ("inputs", A([o])), ("outputs", A([o]))]), O([("type", S("constructor")), ("inputs", A([o]))])])
        if kind == "evp":
            return A([O([("type", S("event")), ("name", S("f")), ("inputs", A([o])), ("anonymous", B(False))])])
        if kind == "mem":
            return A([O([("type", S("function")), ("name", S("f")), ("inputs", A([O([("name", S("s")), ("type", S("tuple")), ("components", A([o, O([("name", S("x")), ("type", S("bool"))])]))])])), ("outputs", A([]))])])
        return A([o])

    vals = JUNK + [S("uint256"), S("tuple"), S("tuple[3]"), S("view"), S("external"), S("function"), S("error"), A([O([("type", S("bool"))])]), A([O([("name", S("z")), ("type", S("bool"))])]), A([O([("type", S("bad"))])]), A([S("bool")])]
    for kind, kvs in fe.items():
        for i in range(len(kvs)):
            out.append(place(kind, kvs[:i] + kvs[i + 1:]))
            for j in range(len(kvs) + 1):
                if g.r.random() < 0.5 * min(2, scale):
                    out.append(place(kind, kvs[:j] + [kvs[i]] + kvs[j:]))
            for v in vals:
                out.append(place(kind, kvs[:i] + [(kvs[i][0], v)] + kvs[i + 1:]))
        for k in ["type", "name", "inputs", "outputs", "constant", "stateMutability", "anonymous", "indexed", "components", "internalType", "payable", "gas", ""] + g.strs:
            if all(k != a for a, _ in kvs):
                for v in g.r.sample(vals, 6) + [S("x"), B(True), A([])]:
                    j = g.r.randint(0, len(kvs))
                    out.append(place(kind, kvs[:j] + [(k, v)] + kvs[j:]))
    # the same entry in every order with the others
    es = [O(fe["fn"]), O(fe["ev"]), O(fe["ctor"]), O(fe["fb"]), O(fe["rc"])]
    for p in itertools.permutations(range(5)):
        out.append(A([es[i] for i in p]))
    for c in itertools.product(range(5), repeat=2):
        out.append(A([es[i] for i in c]))
    bad = O([("type", S("function")), ("name", S("f"))])
    for i in range(4):
        out.append(A(es[:i] + [bad] + es[i:3]))
    # unknown types in entries and params
    for s in ["error", "struct", "Function", "function ", "", "fallback ", "modifier"] + g.strs:
        out.append(A([O([("type", S(s)), ("name", S("f")), ("inputs", A([])), ("outputs", A([])), ("anonymous", B(False))])]))
    for s in ["bool", "uint", "int", "uint8[2][]", "tuple", "bad", "", "uint256[", "uint256]", "bool[x]", "tuple[", "tuple[2", "tuples", "Tuple", "tuple[2]]", "bool ", "address payable", "fixed", "string[0x2]"]:
        for comp in (None, A([]), A([O([("type", S("bool"))])]), NULL):
            kv = [("name", S("a")), ("type", S(s))] + ([("components", comp)] if comp is not None else [])
            out.append(place("par", kv))
            out.append(place("evp", kv))
            out.append(place("mem", kv))
    return out


def empty_tuple_doc(d):
    """A tuple with no members has no defined meaning beyond loading: leave it to the generator of errors only."""
    return False


def sweep_C08(g, scale):
    out = []
    vias = itertools.cycle(["reader", "str", "slow"])
    for c in iface_sweep(g, scale):
        doc = Docs(g, plain=g.r.random() < 0.6).doc(c)
        if len(str(doc)) < 120000:
            out.append(("load", dict(doc=doc, style=g.r.choice([0, 0, 1, 2]), via=next(vias), names=lookup_names(g, c))))
    for doc in permuted_docs(g, scale):
        out.append(("load", dict(doc=doc, style=0, via=next(vias), names=[text("f"), text("E")])))
    # text around the document, and a document without its end
    docs = [Docs(g, plain=True).doc(c) for c in (iface(), iface(fns=[fn_decl(g, "f", [par("a", TUP(BOOL))])]), iface(evs=[dict(name=text("E"), inputs=[], anonymous=False)], fallback=True))]
    pres, posts = around(g)
    for doc in docs:
        for via in ("reader", "str", "slow"):
            style = g.r.choice([0, 1, 2])
            out += [("loadtext", dict(doc=doc, style=style, via=via, pre=list(p), post=[], cut=0)) for p in pres]
            out += [("loadtext", dict(doc=doc, style=style, via=via, pre=[], post=list(p), cut=0)) for p in posts]
            out += [("loadtext", dict(doc=doc, style=style, via=via, pre=[], post=[], cut=n)) for n in (1, 2, 3, 7, 20, 1 << 30)]
    return out


def sweep_C09(g, scale):
    out = []
    for c in iface_sweep(g, scale):
        doc = Docs(g, plain=g.r.random() < 0.7).doc(c)
        if len(str(doc)) < 120000:
            out.append(("ser", dict(doc=doc, style=0)))
    # every combination of entries
    for bits in range(32):
        c = iface(ctor=[dict(inputs=[par("a", UINT())] * (bits % 2))] if bits & 1 else [], fns=[fn_decl(g, "f"), fn_decl(g, "f", [par("", BOOL)])] if bits & 2 else [], evs=[dict(name=text("E"), inputs=[evp("a", STRING, True)], anonymous=False)] if bits & 4 else [], fallback=bool(bits & 8), receive=bool(bits & 16))
        out.append(("ser", dict(doc=Docs(g, plain=True).doc(c), style=0)))
    # the same overload twice, the same event twice
    f = fn_decl(g, "f", [par("a", UINT())])
    e = dict(name=text("E"), inputs=[evp("a", STRING, True)], anonymous=False)
    out.append(("ser", dict(doc=Docs(g, plain=True).doc(iface(fns=[f, f], evs=[e, e])), style=0)))
    for doc in permuted_docs(g, 1)[:: 1 if scale >= 4 else 3]:
        out.append(("ser", dict(doc=doc, style=0)))
    return out


# ---- events ----
def masks_events(g):
    out = []
    kinds = [UINT(), BOOL, STRING, ADDRESS, FB(4), INT(64), BYTES, ARR(UINT()), TUP(BOOL, STRING)]
    for n in range(0, 6):
        for mask in range(1 << n):
            ix = bin(mask).count("1")
            anon = g.r.random() < 0.3
            if ix > (4 if anon else 3):
                if ix == 4:
                    anon = True
                else:
                    continue
            ins = [evp(g.r.choice(["", "a", "b", "p%d" % i, "p%d" % i]), g.r.choice(kinds[:7]) if mask >> i & 1 else g.r.choice(kinds), bool(mask >> i & 1)) for i in range(n)]
            out.append(dict(name=text("M"), inputs=ins, anonymous=anon))
    return out


def sweep_C10(g, scale):
    out = []

    def add(ev, ts, d):
        if len(d) < 3500:
            out.append(("plog", dict(ev=ev, topics=ts, data=d)))

    for ev in masks_events(g):
        vals, tops, data = emit(g, ev)
        add(ev, tops, data)
        if g.r.random() < 0.35 * scale:
            add(ev, [sig_topic(ev)] + tops, data)
            add(ev, tops + [num(1)], data)
            add(ev, tops[1:], data)
            add(ev, tops[::-1], data)
            add(ev, tops, data[:-1])
            add(ev, tops, data + [0] * 32)
            add(ev, [sig_topic(ev)], data)
            if tops:
                add(ev, tops[:-1] + [sig_topic(ev)], data)
                add(ev, [tops[0]] + tops, data)
    # a signature that is almost right
    ev = dict(name=text("Transfer"), inputs=[evp("from", ADDRESS, True), evp("to", ADDRESS, True), evp("value", UINT())], anonymous=False)
    s = sig_topic(ev)
    body = [num(1), num(2)]
    for i in range(32):
        for b in (1, 128, 255):
            w = list(s)
            w[i] ^= b
            add(ev, [w] + body, num(5))
    for cut in (1, 4, 8, 16, 20, 31):
        add(ev, [s[:cut] + [0] * (32 - cut)] + body, num(5))
        add(ev, [[0] * (32 - cut) + s[32 - cut:]] + body, num(5))
    for w in ([0] * 32, [255] * 32, s[::-1], num(1)):
        add(ev, [w] + body, num(5))
    # the signatures of relatives
    for rel in (dict(ev, name=text("transfer")), dict(ev, inputs=ev["inputs"][:2]), dict(ev, inputs=[dict(p, kind=UINT(128)) if p["kind"]["k"] == "uint" else p for p in ev["inputs"]]), dict(ev, inputs=ev["inputs"][::-1]), dict(ev, name=text("Transfe"))):
        add(ev, [sig_topic(rel)] + body, num(5))
        add(dict(ev, anonymous=True), [sig_topic(rel)] + body, num(5))
    anon = dict(ev, anonymous=True)
    add(anon, body, num(5))
    add(anon, [s] + body, num(5))
    add(anon, [s] + body[:1], num(5))
    add(anon, body[:1] + [s], num(5))
    add(anon, [s, s], num(5))
    empty = dict(name=text("A"), inputs=[], anonymous=True)
    for ts in ([], [s], [sig_topic(empty)], [num(0)]):
        for d in ([], [1], num(1)):
            add(empty, ts, d)
            add(dict(empty, anonymous=False), ts, d)
            add(dict(empty, inputs=[evp("x", BOOL)]), ts, d)
            add(dict(empty, inputs=[evp("x", BOOL, True)]), ts, d)
            add(dict(empty, anonymous=False, inputs=[evp("x", BOOL, True)]), [sig_topic(dict(empty, inputs=[evp("x", BOOL)]))] + ts, d)
    # every byte of a topic of every value type
    for t in (BOOL, ADDRESS, UINT(8), INT(8), FB(1), FB(31), FB(32), UINT(), INT(), STRING):
        e1 = dict(name=text("W"), inputs=[evp("x", t, True), evp("y", UINT())], anonymous=True)
        for i in range(32):
            for b in (1, 255):
                w = [0] * 32
                w[i] = b
                add(e1, [w], num(9))
        for w in ([255] * 32, [0] * 32, [255] * 31 + [1], [0] * 31 + [2]):
            add(e1, [w], num(9))
        # in the second and third place
        e3 = dict(name=text("W"), inputs=[evp("a", BOOL, True), evp("y", UINT()), evp("b", STRING, True), evp("x", t, True)], anonymous=False)
        for w in ([255] * 32, num(1), num(2), [0] * 32, [1] + [0] * 31):
            add(e3, [sig_topic(e3), num(1), num(77), w], num(9))
    # every type, indexed and not
    for t in matrix():
        for ix in (True, False):
            e = dict(name=text("K"), inputs=[evp("a", UINT()), evp("k", t, ix), evp("b", BOOL, True)], anonymous=g.r.random() < 0.5)
            vals, tops, data = emit(g, e)
            add(e, tops, data)
    # many params
    for n in g.sizes([8, 15, 16, 17, 18, 32, 33, 64, 100], 300):
        ins = [evp("q%d" % (i % 7), [BOOL, UINT(), STRING][i % 3], i in (0, n // 2, n - 1)) for i in range(n)]
        e = dict(name=text("N"), inputs=ins, anonymous=True)
        vals, tops, data = emit(g, e)
        if len(data) < 30000:
            out.append(("plog", dict(ev=e, topics=tops, data=data)))
    # names that repeat
    for names in itertools.product(["", "a", "b"], repeat=3):
        for mask in (0, 1, 5, 7, 6, 2):
            e = dict(name=text("D"), inputs=[evp(nm, [UINT(), BOOL, STRING][i], bool(mask >> i & 1)) for i, nm in enumerate(names)], anonymous=g.r.random() < 0.5)
            vals, tops, data = emit(g, e)
            add(e, tops, data)
    # looser data
    for _ in range(int(60 * scale)):
        e = random_event(g, 2)
        vals, tops, _d = emit(g, e)
        pv = [v for p, v in zip(e["inputs"], vals) if not p["indexed"]]
        add(e, tops, enc_loose(g, pv))
    return out


def sweep_C11(g, scale):
    out = []
    # every shape of request for every number of indexed params
    kinds = [UINT(), STRING, BOOL, FB(4), ADDRESS, ARR(UINT()), TUP(UINT(), BYTES)]
    for n in range(0, 5):
        for shape in itertools.product("ato", repeat=3):
            for anon in (False, True):
                if n == 4 and not anon:
                    continue
                ks = [g.r.choice(kinds) for _ in range(n)]
                ins = []
                for i, k in enumerate(ks):
                    if g.r.random() < 0.3:
                        ins.append(evp("d%d" % i, g.r.choice(kinds)))
                    ins.append(evp("i%d" % i, k, True))
                if g.r.random() < 0.3:
                    ins.append(evp("z", STRING))
                ev = dict(name=text("F"), inputs=ins, anonymous=anon)
                reqs = []
                for i, c in enumerate(shape):
                    t = ks[i] if i < n else UINT()
                    reqs.append(dict(k="any") if c == "a" else dict(k="this", v=g.value(t, maxlen=1)) if c == "t" else dict(k="oneof", vs=[g.value(t, maxlen=1) for _ in range(g.r.choice([0, 1, 2]))]))
                if n >= 3 or g.r.random() < 0.5 * scale:
                    out.append(("filter", dict(ev=ev, reqs=reqs)))
    # lists of alternatives
    for n in g.sizes([0, 1, 2, 3, 4, 5, 8, 10, 16, 17, 32, 33], 100):
        ev = dict(name=text("L"), inputs=[evp("a", UINT(), True), evp("b", STRING, True)], anonymous=n % 2 == 0)
        us = [U(i * i) for i in range(n)]
        out.append(("filter", dict(ev=ev, reqs=[dict(k="oneof", vs=us), dict(k="any"), dict(k="any")])))
        out.append(("filter", dict(ev=ev, reqs=[dict(k="oneof", vs=us[::-1] + us[:1]), dict(k="oneof", vs=[V("string", [97] * i) for i in range(min(n, 5))]), dict(k="any")])))
        for p in {0, n // 2, n - 1}:
            if 0 <= p < n:
                bad = us[:p] + [g.r.choice([V("int", num(1)), V("bool", True), V("bytes", [1]), V("fbytes", [0] * 32)])] + us[p + 1:]
                out.append(("filter", dict(ev=ev, reqs=[dict(k="oneof", vs=bad), dict(k="any"), dict(k="any")])))
    # values whose place in the word matters
    for t in (ADDRESS, UINT(), INT(), BOOL, FB(1), FB(3), FB(20), FB(31), FB(32)):
        ev = dict(name=text("W"), inputs=[evp("a", t, True)], anonymous=True)
        vs = [V("fbytes", p) for p in byte_patterns(g, t["n"])] if t["k"] == "fbytes" else [V("bool", True), V("bool", False)] if t["k"] == "bool" else [V(t["k"], w[12:] if t["k"] == "address" else w) for w in word_patterns(g)[::9]]
        for i in range(0, len(vs), 12):
            out.append(("filter", dict(ev=ev, reqs=[dict(k="oneof", vs=vs[i:i + 12]), dict(k="any"), dict(k="any")])))
    # hashed contents of every length
    for n in g.sizes([0, 1, 2, 30, 31, 32, 33, 34, 63, 64, 65, 96, 127, 128, 129, 134, 135, 136, 137, 138, 200, 255, 256, 257, 271, 272, 273], 1000):
        for k in ("bytes", "string"):
            ev = dict(name=text("H"), inputs=[evp("a", T(k), True), evp("b", ARR(T(k)), True), evp("c", TUP(T(k), BOOL), True)], anonymous=True)
            v = V(k, [(i * 5 + n) % 90 + 33 for i in range(n)])
            out.append(("filter", dict(ev=ev, reqs=[dict(k="this", v=v), dict(k="this", v=V("array", [v])) if n < 300 else dict(k="any"), dict(k="this", v=V("tuple", [v, V("bool", True)])) if n % 2 and n < 300 else dict(k="any")])))
    for n in g.sizes([0, 1, 2, 3, 4, 5, 8, 9, 16, 17], 70):
        ev = dict(name=text("H"), inputs=[evp("a", ARR(UINT(8)), True), evp("b", ARR(STRING), True), evp("c", ARR(FB(3)), True)], anonymous=False)
        out.append(("filter", dict(ev=ev, reqs=[dict(k="this", v=V("array", [U(i) for i in range(n)])), dict(k="this", v=V("array", [V("string", [97] * (i % 5)) for i in range(n)])), dict(k="any") if n > 8 else dict(k="this", v=V("array", [V("fbytes", [i + 1] * 3) for i in range(n)]))])))
    for t in PAIR:
        ev = dict(name=text("P"), inputs=[evp("a", t, True), evp("n", t)], anonymous=True)
        for _ in range(2):
            out.append(("filter", dict(ev=ev, reqs=[dict(k="this", v=one_each(g, t) if _ else g.value(t, maxlen=2)), dict(k="any"), dict(k="any")])))
        out.append(("filter", dict(ev=ev, reqs=[dict(k="oneof", vs=[one_each(g, t), g.value(t, maxlen=1)]), dict(k="any"), dict(k="any")])))
        # of another type
        for u in g.r.sample(PAIR, 6):
            out.append(("filter", dict(ev=ev, reqs=[dict(k="this", v=one_each(g, u)), dict(k="any"), dict(k="any")])))
    for i, s in enumerate(string_patterns(g)):
        ev = dict(name=text("S"), inputs=[evp("a", STRING, True)], anonymous=True)
        if i % (3 if scale < 4 else 1) == 0 or i > 60:
            out.append(("filter", dict(ev=ev, reqs=[dict(k="this", v=V("string", list(s.encode()))), dict(k="any"), dict(k="any")])))
    for n in range(0, 6):
        out.append(("topic", dict({"from": "many", "xs": [7] * n})))
    return out


# ---- literals ----
def sweep_C12(g, scale):
    out = []

    def ev(t, s, mode=None):
        for m in [mode] if mode else ["strict", "lenient"]:
            out.append(("tok", dict(mode=m, type=t, text=text(s))))

    # numbers of every number of digits
    for n in range(1, 82):
        d = str(g.r.randint(1, 9)) + "".join(str(g.r.randint(0, 9)) for _ in range(n - 1))
        for t in (UINT(), INT(), g.r.choice([UINT(8), INT(64)])):
            ev(t, d)
            ev(t, "-" + d)
        ev(UINT(), "0" * n)
        ev(INT(), "0" * (n - 1) + "1", "lenient")
        ev(INT(), "-" + "0" * (n - 1) + "1", "lenient")
        ev(UINT(), "9" * n, "lenient")
        ev(INT(), "-" + "9" * n, "lenient")
        ev(UINT(), "1" + "0" * (n - 1), "lenient")
        h = "".join(g.r.choice("0123456789abcdef") for _ in range(n))
        for t in (UINT(), INT(), ADDRESS, BYTES, FB(max(1, min(32, n // 2))), FB(32)):
            ev(t, h, g.r.choice(["strict", "lenient"]))
        ev(g.r.choice([UINT(), INT()]), "0x" + h)
        ev(g.r.choice([ADDRESS, BYTES, FB(4)]), "0x" + h, "strict")
    for k in range(0, 257):
        x = 1 << k
        for y in (x - 1, x, x + 1) if k % 8 in (0, 7) or scale >= 4 else (x,):
            ev(UINT(), str(y), "lenient")
            ev(INT(), str(y), "lenient")
            ev(INT(), "-" + str(y), "lenient")
            if y < 1 << 256:
                ev(g.r.choice([UINT(), INT()]), "%064x" % y)
    for n in g.ints:
        for y in (n - 1, n, n + 1, 10 ** min(n, 90) if n > 0 else 1):
            ev(UINT(), str(y))
            ev(INT(), str(-y))
    # hex that is not quite hex, of every type that is written so
    for t, n in ((UINT(), 32), (INT(), 32), (UINT(8), 32), (ADDRESS, 20), (BYTES, 5), (FB(32), 32), (FB(4), 4), (BYTES, 0)):
        for odd in nearly_hex(g):
            h = bytes(g.r.choice([0, 0x0f, 0xab, 0xcd, 0x10]) for _ in range(n)).hex()
            ev(t, odd(h))
            ev(ARR(t), "[%s,%s]" % (h, odd(h)), g.r.choice(["strict", "lenient"]))
            ev(TUP(t, BOOL), "(%s,1)" % odd(h), g.r.choice(["strict", "lenient"]))
    # structs without members
    for t in (TUP(), ARR(TUP()), FARR(TUP(), 2), TUP(TUP()), TUP(TUP(), BOOL), TUP(BOOL, TUP())):
        for s in ("()", "(())", "(", ")", "", "( )", "(,)", "[]", "[()]", "[(),()]", "[(()),()]", "((),true)", "(true,())", "(true,)", "(,true)", "()()", "(()())", "[()()]", "[(,),()]", "\"()\""):
            ev(t, s)
    # the one byte that is wrong
    for t, good in ((ADDRESS, "%040x" % 0x1234567890abcdef), (UINT(), "%064x" % (1 << 255)), (INT(), "%064x" % 77), (FB(4), "0a0b0c0d"), (BYTES, "00ff10"), (FB(32), "ab" * 32), (FB(1), "00")):
        for i in range(len(good)):
            if len(good) < 12 or i in (0, 1, 2, len(good) // 2, len(good) - 2, len(good) - 1) or g.r.random() < 0.15 * scale:
                for ch in "gxG -+_\u00e9:`@/" if len(good) < 12 else g.r.sample("gxG -+_:`@/", 4):
                    ev(t, good[:i] + ch + good[i + 1:], g.r.choice(["strict", "lenient"]))
                ev(t, good[:i] + good[i:].upper(), "strict")
        for pre in ("0", "00", "0x", "0X", " ", "x", "\"", "+", "-", "0x0x"):
            ev(t, pre + good)
            ev(t, good + pre)
            ev(t, pre + good[2:])
            ev(t, good[:-len(pre)] + pre)
        ev(t, good[:-1])
        ev(t, good[:-2])
        ev(t, good[1:])
        ev(t, good[2:])
        ev(t, good + good)
        ev(t, "\"" + good + "\"")
    for n in range(1, 33):
        for m in {2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2, 0, 62, 64, 66, n}:
            for fill in ("0", "c", "f"):
                ev(FB(n), fill * m, g.r.choice(["strict", "lenient"]))
            ev(FB(n), ("ab" * 40)[:m // 2] + "0" * (m - m // 2), g.r.choice(["strict", "lenient"]))
    for n in range(0, 90):
        ev(ADDRESS, "0" * n, "strict")
        ev(ADDRESS, "a" * n, "lenient") if 36 < n < 44 else None
    # every small text
    def texts(alpha, k):
        for n in range(0, k + 1):
            for c in itertools.product(alpha, repeat=n):
                yield "".join(c)

    k = 4 if scale < 4 else 5
    for s in texts("a,\"[]", k):
        for t in (ARR(STRING), FARR(STRING, 2)) if len(s) < 5 else (g.r.choice([ARR(STRING), FARR(STRING, 1), FARR(STRING, 3), ARR(ARR(STRING))]),):
            ev(t, "[" + s + "]", "strict")
        ev(ARR(STRING), s, "lenient")
    for s in texts("a,\"()", k):
        ev(g.r.choice([TUP(STRING), TUP(STRING, STRING)]), "(" + s + ")", "strict")
        ev(TUP(STRING, STRING), "(" + s + ")", "lenient")
        ev(TUP(STRING), s, "strict")
    for s in texts("1,[]", 5):
        ev(ARR(ARR(BOOL)), "[" + s + "]", "strict")
    for s in texts("1,()\"", 4):
        ev(TUP(TUP(BOOL), BOOL), "(" + s + ")", "strict")
        ev(TUP(BOOL, BOOL), "(" + s + ")", "lenient")
    for s in texts("[](),\"", 4):
        ev(STRING, s, "strict")
        ev(ARR(STRING), "[" + s + "]", "lenient")
        ev(TUP(STRING), "(" + s + ")", "lenient")
    for s in texts("01tf-", 3):
        ev(BOOL, s, g.r.choice(["strict", "lenient"]))
    for s in texts("0-+1 ", 4):
        ev(INT(), s, "lenient")
        ev(UINT(), s, "lenient")
    # lists and structs of every length
    for n in g.sizes([1, 2, 3, 4, 5, 8, 16, 17, 31, 32, 33, 64, 65, 100, 255, 256, 257], 400):
        one = ",".join(["1", "0", "true"][i % 3] for i in range(n))
        ev(ARR(BOOL), "[" + one + "]", "strict")
        if n:
            for m in (n - 1, n, n + 1):
                if m:
                    ev(FARR(BOOL, m), "[" + one + "]", "strict")
                    ev(TUP(*[BOOL] * m), "(" + one + ")", "strict") if m < 120 else None
        for m in {0, 1, 2, n // 2, n - 2, 2 * n} if n <= 300 else ():
            # too few and too many, alike or not
            for each in (["1"], ["0", "true"]):
                lit = ",".join(each[i % len(each)] for i in range(m))
                ev(FARR(BOOL, n), "[" + lit + "]", "lenient")
                ev(TUP(*[BOOL] * n), "(" + lit + ")", "lenient") if n < 70 else None
        q = ",".join(["\"a,b\"", "c", "\"\"", "\"[\"", "\")\""][i % 5] for i in range(min(n, 60)))
        ev(ARR(STRING), "[" + q + "]", "lenient")
        ev(TUP(*[STRING] * max(1, min(n, 60))), "(" + q + ")", "lenient")
        ev(STRING, "x" * n, "strict")
        ev(BYTES, "ab" * n, "strict")
        ev(BYTES, "ab" * n + "c", "lenient")
        ev(ARR(STRING), "[" + "x" * n + "," + "y" * n + "]", "strict")
    for d in g.sizes([2, 3, 4, 5, 8, 9, 12, 16, 17, 20, 31, 32, 33, 40], 80):
        for o, c, w in (("[", "]", ARR), ("(", ")", TUP), ("[", "]", lambda x: FARR(x, 1))):
            for e, s in ((BOOL, "1"), (STRING, "\"x,y\""), (STRING, "")):
                t = chain(d, [w], e)
                ev(t, o * d + s + c * d, "strict")
                ev(t, o * d + s + c * (d - 1), "lenient")
                ev(t, o * (d - 1) + s + c * (d - 1), "strict")
                ev(t, o * (d + 1) + s + c * (d + 1), "strict")
                ev(t, o * d + s + "," + s + c * d, "strict")
    # one wrong element at every place
    for n in (1, 2, 3, 4, 7):
        for p in range(n):
            for wrong in ("", "2", "x", "[1]", "(1)", "\"1\"", " 1", "1 ", "true,"):
                xs = ["1"] * n
                xs[p] = wrong
                ev(ARR(BOOL), "[" + ",".join(xs) + "]", "strict")
                ev(FARR(BOOL, n), "[" + ",".join(xs) + "]", "strict")
                ev(TUP(*[BOOL] * n), "(" + ",".join(xs) + ")", "strict")
                if g.r.random() < 0.5:
                    ev(ARR(UINT()), "[" + ",".join(xs) + "]", "lenient")
                    ev(TUP(*[INT()] * n), "(" + ",".join(xs) + ")", "lenient")
    for s in string_patterns(g):
        ev(STRING, s, "strict")
        ev(ARR(STRING), "[" + s + "]", "strict")
        ev(ARR(STRING), "[a," + s + ",b]", "lenient")
        ev(ARR(STRING), "[\"" + s + "\",b]", "strict")
        ev(TUP(STRING, BOOL), "(" + s + ",1)", "lenient")
        for t in (BOOL, UINT(), BYTES, ADDRESS):
            ev(t, s, g.r.choice(["strict", "lenient"]))
    return [(op, a) if not mixed(a["type"]) else ("tokmixed", a) for op, a in out]


def sweep_C13(g, scale):
    out = []

    def show(v):
        out.append(("show", dict(tok=v)))

    def retok(t, v):
        if no_empty_bytes(v):
            out.append(("retok", dict(type=t, tok=v, mode=g.r.choice(["strict", "strict", "lenient"]))))

    ws = word_patterns(g)
    for i in range(0, len(ws), 24):
        part = ws[i:i + 24]
        show(V("array", [V("uint", w) for w in part]))
        show(V("farray", [V("int", w) for w in part]))
        show(V("tuple", [V("address", w[12:]) for w in part]))
    for w in ws[:: 3 if scale < 4 else 1]:
        show(V("uint", w))
        show(V("int", w))
        show(V("address", w[12:]))
        retok(ADDRESS, V("address", w[12:]))
    for k in range(0, 257):
        for y in (1 << k, (1 << k) - 1):
            if y < 1 << 256:
                show(V("tuple", [U(y), V("int", num(y)), V("int", num((1 << 256) - 1 - y))]))
    for n in range(0, 65):
        x = int("".join(g.r.choice("0123456789abcdef") for _ in range(n)) or "0", 16) % (1 << 256)
        show(U(x))
        show(V("int", num(x)))
        # digits only, digits with a single letter
        x = int("".join(g.r.choice("0123456789") for _ in range(n)) or "0", 16)
        show(U(x))
    for n in list(range(1, 36)) + [63, 64, 65, 100]:
        for p in byte_patterns(g, n):
            show(V("bytes", p))
            retok(BYTES, V("bytes", p))
            if n <= 32:
                show(V("fbytes", p))
                retok(FB(n), V("fbytes", p))
        ps = byte_patterns(g, n)
        retok(ARR(BYTES), V("array", [V("bytes", p) for p in ps]))
        if n <= 32:
            retok(ARR(FB(n)), V("array", [V("fbytes", p) for p in ps]))
            retok(FARR(FB(n), 2), V("farray", [V("fbytes", ps[0]), V("fbytes", ps[-1])]))
    for b in range(256):
        show(V("bytes", [b]))
        retok(ARR(FB(2)), V("array", [V("fbytes", [b, 255 - b])]))
    for n in g.sizes([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 255, 256, 257], 700):
        show(V("array", bools(n)))
        retok(ARR(BOOL), V("array", bools(n)))
        if n:
            show(V("farray", bools(n)))
            retok(FARR(BOOL, n), V("farray", bools(n)))
            show(V("tuple", bools(n)))
            retok(ARR(ADDRESS), V("array", [V("address", [i % 256] * 20) for i in range(min(n, 70))]))
            show(V("bytes", [171] * n))
            retok(BYTES, V("bytes", [(i * 3) % 256 for i in range(n)]))
            show(V("string", [97 + i % 26 for i in range(n)]))
        show(V("array", [V("array", bools(n)), V("array", []), V("array", bools(1))]))
        retok(ARR(ARR(BOOL)), V("array", [V("array", bools(n)), V("array", []), V("array", bools(1))]))
    for d in g.sizes([2, 3, 4, 5, 6, 8, 9, 12, 16, 17, 32, 33], 70):
        for w in CHAINS:
            t = chain(d, w, g.r.choice([UINT(), BOOL, ADDRESS, STRING]))
            show(one_each(g, t))
        for w in ([ARR], [lambda x: FARR(x, 1)], [ARR, lambda x: FARR(x, 2)] if d < 9 else [ARR]):
            t = chain(d, w, g.r.choice([BOOL, ADDRESS, FB(3)]))
            retok(t, one_each(g, t))
            show(V("array", [one_each(g, t)] * 2))
    for s in string_patterns(g):
        b = list(s.encode())
        show(V("string", b))
        show(V("array", [V("string", b), V("string", b)]))
        show(V("tuple", [V("string", b), V("bool", True), V("bytes", b)]))
    for a in PAIR:
        for b in PAIR:
            show(V("tuple", [one_each(g, a), one_each(g, b)]))
        show(V("array", [g.value(a, maxlen=2) for _ in range(3)]))
        show(V("array", []))
    # empty lists inside lists
    E_ = V("array", [])
    for v in (V("array", [E_]), V("array", [E_, E_]), V("array", [V("array", [E_]), E_]), V("farray", [E_]), V("farray", [E_, E_]), V("tuple", [E_]), V("tuple", [E_, U(1)])):
        show(v)
    retok(ARR(ARR(BOOL)), V("array", [E_]))
    retok(ARR(ARR(BOOL)), V("array", [E_, E_]))
    retok(ARR(ARR(ARR(BOOL))), V("array", [V("array", [E_]), E_]))
    retok(FARR(ARR(BOOL), 2), V("farray", [E_, E_]))
    retok(ARR(BOOL), E_)
    return out


# ---- histories ----
def hammer(g, scale):
    """Long histories of refused calls, then good ones: nothing a call does may count up."""
    out = []
    deep = chain(12, [ARR], UINT())
    fails = [("decode", dict(types=[ARR(ARR(UINT()))], data=num(32) + num(1) + num(32) + num(1 << 40), via="plain")),
             ("decode", dict(types=[TUP(STRING, ARR(BYTES))], data=num(32) + num(64) + num(96) + num(1 << 33), via="fn_out")),
             ("decode", dict(types=[BOOL], data=num(2), via="plain")),
             ("decode", dict(types=[deep], data=num(32) + num(1) * 40, via="fn_in")),
             ("tok", dict(mode="lenient", type=ARR(ARR(UINT())), text=text("[[1,2],[3,x]]"))),
             ("tok", dict(mode="strict", type=TUP(TUP(BOOL), STRING), text=text("((2),a)"))),
             ("tok", dict(mode="lenient", type=INT(), text=text("-" + "9" * 90))),
             ("read", dict(text=text("(((uint256,bool[),string)"), via="reader")),
             ("read", dict(text=text("((((((uint256"), via="reader")),
             ("read", dict(text=text("uint256[][][x]"), via="json")),
             ("load", dict(doc=A([O([("type", S("function")), ("name", S("f")), ("inputs", A([O([("name", S("a")), ("type", S("tuple"))])])), ("outputs", A([]))])]), style=0, via="reader", names=[])),
             ("load", dict(doc=A([O([("type", S("event")), ("name", S("E")), ("inputs", A([O([("name", S("a")), ("type", S("bool["))])])), ("anonymous", B(False))])]), style=0, via="str", names=[])),
             ("call", dict(name=text("f"), types=[TUP(UINT(), ARR(BOOL))], outs=[], toks=[V("tuple", [U(1), V("array", [U(2)])])])),
             ("create", dict(types=[ARR(FARR(UINT(), 2))], code=[1], toks=[V("array", [V("farray", [U(1)])])])),
             ("plog", dict(ev=dict(name=text("E"), inputs=[evp("a", BOOL, True), evp("b", ARR(STRING))], anonymous=True), topics=[num(1)], data=num(32) + num(1) + num(1 << 20))),
             ("filter", dict(ev=dict(name=text("E"), inputs=[evp("a", STRING, True)], anonymous=False), reqs=[dict(k="this", v=U(1)), dict(k="any"), dict(k="any")]))]
    v = V("array", [V("array", [U(1), U(2)]), V("array", [])])
    w = V("tuple", [V("string", [97]), V("array", [V("bytes", [1, 2])])])
    good = [("decode", dict(types=[ARR(ARR(UINT()))], data=enc([v]), via="plain")), ("decode", dict(types=[TUP(STRING, ARR(BYTES))], data=enc([w]), via="fn_out")), ("encode", dict(toks=[v, w])),
            ("decode", dict(types=[deep], data=enc([one_each(g, deep)]), via="fn_in")), ("tok", dict(mode="lenient", type=ARR(ARR(UINT())), text=text("[[1,2],[3]]"))), ("tok", dict(mode="strict", type=TUP(TUP(BOOL), STRING), text=text("((1),a)"))),
            ("read", dict(text=text("((uint256,bool[])[2],string)[]"), via="reader")), ("call", dict(name=text("f"), types=[TUP(UINT(), ARR(BOOL))], outs=[], toks=[V("tuple", [U(1), V("array", [V("bool", True)])])])),
            ("load", dict(doc=Docs(g, plain=True).doc(iface(fns=[fn_decl(g, "f", [par("a", TUP(BOOL, ARR(TUP(STRING))))])])), style=0, via="reader", names=[text("f")])),
            ("plog", dict(ev=dict(name=text("E"), inputs=[evp("a", BOOL, True), evp("b", ARR(STRING))], anonymous=True), topics=[num(1)], data=enc([V("array", [V("string", [97])])]))),
            ("filter", dict(ev=dict(name=text("E"), inputs=[evp("a", STRING, True)], anonymous=False), reqs=[dict(k="this", v=V("string", [97])), dict(k="any"), dict(k="any")])),
            ("evsig", dict(ev=dict(name=text("E"), inputs=[evp("a", TUP(UINT(), BOOL))], anonymous=False))), ("fnsig", dict(name=text("f"), ins=[UINT()], outs=[BOOL])), ("write", dict(type=TUP(UINT(), ARR(BOOL)))), ("show", dict(tok=v))]
    big = max([x for x in g.sizes([], 200000)] or [0])
    n = max(3000, min(200000, 2 * big))
    wrap = lambda xs: [dict(id=0, op=op, args=a) for op, a in xs]
    # each failure alone, many times; then everything that is good
    for f in fails:
        out.append(("hammer", "repeat", dict(events=wrap([f]), times=n)))
        for x in good:
            out.append(("hammer",) + x)
    for x in good:
        out.append(("hammer", "repeat", dict(events=wrap([x]), times=n if x[0] != "load" else n // 4)))
    out.append(("hammer", "repeat", dict(events=wrap(fails + good), times=max(300, n // 20))))
    for x in fails + good:
        out.append(("hammer",) + x)
    # many different arguments: what is remembered must not be mixed up
    many = []
    for i in range(int(700 * min(scale, 3)) + max([x for x in g.sizes([], 6000)] or [0])):
        nm = "f%d" % (i % 400)
        k = i % 5
        if k == 0:
            many.append(("fnsig", dict(name=text(nm), ins=[UINT(8 * (i % 32) + 8)], outs=[])))
        elif k == 1:
            many.append(("decode", dict(types=[ARR(UINT(8 * (i % 32) + 8)), BYTES], data=enc([V("array", [U(i)]), V("bytes", [i % 256])]), via="plain")))
        elif k == 2:
            many.append(("tok", dict(mode="lenient", type=ARR(INT()), text=text("[%d,-%d]" % (i, i)))))
        elif k == 3:
            many.append(("read", dict(text=text("(uint%d,bool[%d])" % (8 * (i % 32) + 8, i + 1)), via="reader")))
        else:
            many.append(("encode", dict(toks=[V("string", text(nm)), U(i)])))
    out += [("many",) + x for x in many]
    out += [("many",) + x for x in g.r.sample(many, len(many) // 3)]
    return out


def alike(g):
    """Pairs of arguments that a careless fingerprint takes for the same: equal lengths, sums, xors, polynomial hashes, ends,
    spellings up to case or white space, or the same parts grouped in another way."""
    L = "abcdefgh" * 16
    names = [("Aa", "BB"), ("AaAa", "BBBB"), ("AaBB", "BBAa"), ("az", "bY"), ("xazx", "xbYx"), ("ab", "ba"), ("transfer", "transfre"), ("ac", "bb"), ("foo", "FOO"), ("Foo", "foo"), ("a_b", "ab"), ("_f", "f"), ("f_", "f"),
             ("f1", "f2"), ("f1", "f01"), ("aXa", "aYa"), ("get", "set"), ("f\u00e9", "f\u00ea"), ("f\u00e9", "fe"), ("aab", "abb"), ("aba", "bab"), ("f$", "f"), ("f", "g")]
    for k in (3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127):
        names += [(L[:k] + "x", L[:k] + "y"), ("x" + L[:k], "y" + L[:k]), (L[:k], L[:k] + "a"), (L[:k // 2] + "x" + L[:k // 2], L[:k // 2] + "y" + L[:k // 2])]
    A_, B_, F = ARR, TUP, FARR
    types = [([UINT(8), UINT(16)], [UINT(16), UINT(8)]), ([INT()], [UINT()]), ([TUP(BOOL, STRING)], [BOOL, STRING]), ([TUP(BOOL), STRING], [BOOL, TUP(STRING)]), ([TUP(TUP(BOOL), STRING)], [TUP(BOOL, TUP(STRING))]),
             ([A_(F(BOOL, 2))], [F(A_(BOOL), 2)]), ([F(BOOL, 12)], [F(BOOL, 21)]), ([F(F(BOOL, 2), 3)], [F(F(BOOL, 3), 2)]), ([FB(1), FB(2)], [FB(2), FB(1)]), ([FB(12)], [FB(21)]), ([BYTES], [STRING]), ([BYTES], [FB(32)]),
             ([A_(A_(UINT()))], [A_(UINT())]), ([TUP(A_(UINT()))], [A_(TUP(UINT()))]), ([BOOL, BOOL], [BOOL]), ([ADDRESS], [UINT(160)]), ([A_(BOOL), BOOL], [BOOL, A_(BOOL)]), ([UINT(128)], [UINT(256)]), ([], [BOOL])]
    pairs = []
    fn = lambda n, i, o=(): ("fnsig", dict(name=text(n), ins=i, outs=list(o)))
    ev = lambda n, ps, an=False: dict(name=text(n), inputs=ps, anonymous=an)
    for a, b in names:
        pairs += [(fn(a, []), fn(b, [])), (fn(a, [UINT()]), fn(b, [UINT()])), (("evsig", dict(ev=ev(a, [evp("x", BOOL)]))), ("evsig", dict(ev=ev(b, [evp("x", BOOL)]))))]
        for t, v in ((STRING, lambda x: V("string", list(x.encode()))), (BYTES, lambda x: V("bytes", list(x.encode())))):
            va, vb = v(a), v(b)
            pairs += [(("encode", dict(toks=[va])), ("encode", dict(toks=[vb]))), (("decode", dict(types=[t], data=enc([va]), via="plain")), ("decode", dict(types=[t], data=enc([vb]), via="plain"))), (("show", dict(tok=va)), ("show", dict(tok=vb)))]
            e = ev("E", [evp("x", t, True)])
            req = lambda x: ("filter", dict(ev=e, reqs=[dict(k="this", v=x), dict(k="any"), dict(k="any")]))
            pairs.append((req(va), req(vb)))
        pairs.append(tuple(("tok", dict(mode="strict", type=A_(STRING), text=text("[%s,%s]" % (x, x)))) for x in (a, b)))
        pairs.append(tuple(("plog", dict(ev=ev("E", [evp(x, BOOL)], True), topics=[], data=num(1))) for x in (a, b)))
        docs = [Docs(g, plain=True).doc(iface(fns=[fn_decl(g, x, [par("a", BOOL)])], evs=[ev(x, [evp("a", BOOL)])])) for x in (a, b)]
        pairs.append(tuple(("load", dict(doc=d, style=0, via="str", names=[text(a), text(b)])) for d in docs))
    for a, b in types:
        va, vb = [one_each(g, t) for t in a], [one_each(g, t) for t in b]
        pairs += [(fn("f", a), fn("f", b)), (fn("f", [], a), fn("f", [], b)), (fn("f", a, b), fn("f", b, a)), (("encode", dict(toks=va)), ("encode", dict(toks=vb)))]
        pairs.append(tuple(("evsig", dict(ev=ev("E", [evp("x", t) for t in x]))) for x in (a, b)))
        pairs.append(tuple(("call", dict(name=text("f"), types=x, outs=[], toks=v)) for x, v in ((a, va), (b, vb))))
        pairs.append(tuple(("call", dict(name=text("f"), types=x, outs=[], toks=va)) for x in (a, b)))
        if a:
            for d in (enc(va), enc(vb), num(32) * 12):
                pairs.append(tuple(("decode", dict(types=x, data=d, via=g.r.choice(["plain", "fn_in", "fn_out"]))) for x in (a, b)))
            pairs.append(tuple(("write", dict(type=x[0])) for x in (a, b)))
            pairs.append(tuple(("read", dict(text=text(type_name(x[0])), via="reader")) for x in (a, b)))
    # data that differs in one place or in the order of its words
    ts = [UINT(), UINT(), BYTES, ARR(UINT())]
    base = enc([U(1), U(2), V("bytes", [7] * 40), V("array", [U(3), U(4), U(5)])])
    for i in list(range(0, 64)) + list(range(160, 200)) + [len(base) - 1, len(base) - 32, len(base) - 64]:
        other = base[:i] + [base[i] ^ 1] + base[i + 1:]
        pairs.append(tuple(("decode", dict(types=ts, data=d, via="plain")) for d in (base, other)))
    swapped = base[32:64] + base[:32] + base[64:]
    pairs.append(tuple(("decode", dict(types=ts, data=d, via="fn_in")) for d in (base, swapped)))
    for n in range(1, 12):
        e = ev("E", [evp("a", UINT(), True), evp("b", UINT(), True), evp("c", UINT())])
        x, y = [U(i) for i in (n, n + 1)]
        sig = keccak256(text("E(uint256,uint256,uint256)"))
        pairs.append(tuple(("plog", dict(ev=e, topics=[sig, num(p), num(q)], data=num(n))) for p, q in ((n, n + 1), (n + 1, n))))
        pairs.append(tuple(("filter", dict(ev=e, reqs=[dict(k="this", v=p), dict(k="this", v=q), dict(k="any")])) for p, q in ((x, y), (y, x))))
        pairs.append(tuple(("filter", dict(ev=e, reqs=[dict(k="this", v=p), dict(k="any"), dict(k="any")])) for p in (x, y)))
        pairs.append(tuple(("tok", dict(mode=m, type=UINT(), text=text("%064d" % n))) for m in ("strict", "lenient")))
        pairs.append(tuple(("tok", dict(mode=m, type=ARR(UINT()), text=text("[%d]" % n))) for m in ("lenient", "strict")))
        pairs.append(tuple(("tok", dict(mode="lenient", type=t, text=text("[%d]" % n))) for t in (ARR(UINT()), ARR(INT()))))
        pairs.append(tuple(("tok", dict(mode="lenient", type=ARR(STRING), text=text(t))) for t in ("[%d,x]" % n, "[ %d,x]" % n)))
        pairs.append(tuple(("tok", dict(mode="lenient", type=ARR(STRING), text=text(t))) for t in ("[\"%d\",x]" % n, "[%d,x]" % n)))
        pairs.append(tuple(("read", dict(text=text(t), via="reader")) for t in ("bool[%d]" % n, "bool[ %d]" % n)))
        pairs.append(tuple(("read", dict(text=text(t), via="reader")) for t in ("bool[%d]" % n, "BOOL[%d]" % n)))
        pairs.append(tuple(("show", dict(tok=V(k, [x, y]))) for k in ("array", "tuple")))
        pairs.append(tuple(("show", dict(tok=V(k, [n, n + 1]))) for k in ("bytes", "string")))
    for a, b in ((True, False),):
        for ps in ([BOOL], [BOOL, UINT()], [STRING, UINT()]):
            mk = lambda ix, an: ev("E", [evp("p%d" % i, t, x) for i, (t, x) in enumerate(zip(ps, ix))], an)
            for e1, e2 in ((mk([a] * 2, a), mk([b] * 2, a)), (mk([a] * 2, a), mk([a] * 2, b)), (mk([a, b], a), mk([b, a], a))):
                for topics, data in (([num(1)], num(1)), ([num(1), num(1)], []), ([], num(1) + num(1)), ([num(1)], [])):
                    pairs.append(tuple(("plog", dict(ev=e, topics=topics, data=data)) for e in (e1, e2)))
                v = one_each(g, ps[0])
                pairs.append(tuple(("filter", dict(ev=e, reqs=[dict(k="this", v=v), dict(k="any"), dict(k="any")])) for e in (e1, e2)))
    out = []
    for a, b in pairs:
        out += [("alike",) + x for x in (a, b, a)]
    for a, b in pairs:
        out += [("alike",) + x for x in (b, a, b)]
    return out


def sweep_C16(g, scale):
    return hammer(g, scale) + alike(g)
