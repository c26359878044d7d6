"""Event generators, one per property: gen_Cxx(g, scale) -> list of (op, args) or (group, op, args)."""
from abigen import *
from keccak import keccak256

ELEMS = [ADDRESS, BYTES, BOOL, STRING, INT(), UINT(), UINT(8), FB(1), FB(31), FB(32)]
SHORT = [ADDRESS, BYTES, BOOL, STRING, UINT(), FB(4)]


def wraps(t):
    return [ARR(t), FARR(t, 1), FARR(t, 2), TUP(t), TUP(t, UINT()), TUP(UINT(), t), TUP(BYTES, t), TUP(t, STRING)]


def matrix(depth2=True):
    """Every elementary type in every container, and every container in every container."""
    out = list(ELEMS)
    for e in ELEMS:
        out += wraps(e)
    if depth2:
        for e in (UINT(), STRING, FB(3)):
            for w in wraps(e):
                out += wraps(w)
    return out


def all_values(g, t, n=1):
    return [g.value(t) for _ in range(n)]


def value_corpus(g, scale, runs=False):
    """(types, values) pairs."""
    out = []
    m = matrix()
    for t in m:
        # alone, and between values whose place depends on its head size
        v = g.value(t)
        out.append(([t], [v]))
        ts = [g.r.choice([UINT(), STRING, BOOL]), t, g.r.choice([BYTES, ADDRESS])]
        out.append((ts, g.values(ts)))
    for n in list(range(0, 70)) + BIGLENS:
        k = g.r.choice(["bytes", "string"])
        t = T(k)
        v = dict(k=k, b=g.blob(n) if k == "bytes" else g.string(n))
        if g.r.random() < 0.5:
            out.append(([t], [v]))
        else:
            out.append(([ARR(t), UINT()], [dict(k="array", ts=[v, v]), g.value(UINT())]))
    for n in range(1, 33):
        out.append(([FB(n)], [dict(k="fbytes", b=g.blob(n))]))
        out.append(([ARR(FB(n))], [dict(k="array", ts=[dict(k="fbytes", b=g.blob(n)) for _ in range(2)])]))
    for n in [0, 1, 2, 3, 5, 8, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257]:
        e = g.r.choice([BOOL, UINT(8), FB(2)]) if n > 40 else g.r.choice([BOOL, ADDRESS, STRING, BYTES, ARR(UINT()), TUP(UINT(), BYTES)])
        vs = [g.value(e, maxlen=1) for _ in range(n)]
        out.append(([ARR(e), STRING], [dict(k="array", ts=vs), g.value(STRING)]))
        if n > 0 and n < 40:
            out.append(([FARR(e, n), BYTES], [dict(k="farray", ts=vs), g.value(BYTES)]))
    for n in (7, 16, 17, 18, 33):
        ts = [g.elem() for _ in range(n)]
        out.append((ts, g.values(ts)))
        out.append(([TUP(*ts), UINT()], g.values([TUP(*ts), UINT()])))
    # deep nesting
    for d in (5, 6, 8):
        t = g.elem()
        for _ in range(d):
            t = g.r.choice([ARR, lambda x: FARR(x, 1), lambda x: TUP(x), lambda x: FARR(x, 2) if d < 6 else TUP(BOOL, x)])(t)
        out.append(([t, UINT()], g.values([t, UINT()], maxlen=1)))
    for _ in range(int(400 * scale)):
        ts = g.types(g.r.choice([2, 3, 3, 4]), 0, 4)
        vs = g.values(ts)
        if len(enc(vs)) < 6000:
            out.append((ts, vs))
    return out


def rbytes(n, b, tail=()):
    return [[n, b]] + [[1, x] for x in tail] if n else [[1, x] for x in tail]


def norm_runs(rs):
    out = []
    for n, b in rs:
        if n == 0:
            continue
        if out and out[-1][1] == b:
            out[-1][0] += n
        else:
            out.append([n, b])
    return out


def big_corpus(g, scale):
    """Values with payloads around the places where lengths and offsets take another byte."""
    out = []
    sizes = [65535, 65536, 65537, 65504, 65505, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]
    if scale > 1:
        sizes += [131072, 200000, (1 << 23), (1 << 24) + 4097, (1 << 25) + 5]
    for n in sizes:
        k = g.r.choice(["bytes", "string"])
        big = dict(k=k, b=norm_runs(rbytes(n, g.r.choice([1, 65, 97]))))
        small = dict(k="bytes", b=norm_runs(rbytes(3, 7)))
        out.append(([T(k), BYTES, UINT()], [big, small, dict(k="uint", w=num(9))]))
        if n < (1 << 24) or scale > 1:
            out.append(([ARR(T(k))], [dict(k="array", ts=[big, big])]))
            out.append(([TUP(T(k), UINT(), BYTES), BYTES], [dict(k="tuple", ts=[big, dict(k="uint", w=num(1)), small]), small]))
            out.append(([FARR(T(k), 2)], [dict(k="farray", ts=[big, dict(big)])]))
    for n in [256, 65535, 65536, 65537] if scale > 1 else [65537]:
        z = dict(k="uint", w=[0] * 32)
        out.append(([ARR(UINT()), BOOL], [dict(k="array", ts=[z] * n), dict(k="bool", v=True)]))
    return out


def gen_C01(g, scale):
    out = []
    for ts, vs in value_corpus(g, scale):
        out.append(("encode", dict(toks=vs)))
    for ts, vs in big_corpus(g, scale):
        out.append(("bigenc", dict(toks=vs)))
    # through a function and a constructor
    for _ in range(int(40 * scale)):
        ts = g.types(2, 0, 3)
        out.append(("create", dict(types=ts, code=g.blob(g.r.choice([0, 1, 31, 32, 40])), toks=g.values(ts))))
    # a bytesN value may be given shorter: it is padded on the right
    for n in range(1, 32):
        out.append(("encode", dict(toks=[dict(k="array", ts=[dict(k="fbytes", b=[171] * n)]), dict(k="fbytes", b=g.blob(n))])))
    return out


def gen_C02(g, scale):
    out = []
    for ts, vs in value_corpus(g, scale):
        tail = g.blob(g.r.choice([0, 1, 31, 32, 33, 64]))
        out.append(("rt", dict(types=ts, toks=vs, tail=tail)))
    for ts, vs in big_corpus(g, scale):
        out.append(("bigrt", dict(types=ts, toks=vs)))
    return out


# ---- arbitrary data ----
CLAIMS = [0, 1, 2, 31, 32, 33, 64, 255, 256, 65535, 65536, (1 << 16) + 32, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) - 32,
          1 << 32, (1 << 32) + 32, (1 << 63), (1 << 64) - 1, (1 << 64) - 32, 1 << 64, (1 << 64) + 32, (1 << 128), (1 << 255), (1 << 256) - 1, (1 << 256) - 32]

UTF8 = [b"\xff", b"\xc3", b"\xc3\xa9", b"\xe2\x82", b"\xe2\x82\xac", b"\xf0\x9f\x98", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"\xc0\x80",
        b"\xe0\x80\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"a\x80b", b"\x80\x80", b"\xe2a", b"\xf0\x9fa", b"\xf0\x80", b"\xc3\xc3\xa9",
        b"ok\xe2\x28\xa1", b"\xf1\x80\x80\xf1\x80\x80\x80", b"\xef\xbf\xbd", b"\xef\xbb\xbfx", b"\x00", b"\xfe\xff", b"\xe1\x80\xe2\xf0\x91\x92\xf1\xbf\x41"]


def put(data, p, w):
    return data[:p] + list(w) + data[p + 32:]


def hostile(g, ts, vs, k=6, sweep=False):
    """Mutations of an encoding."""
    d = enc(vs)
    hs = headers(ts, d)
    out = []
    for _ in range(k):
        c = g.r.randint(0, 9)
        e = list(d)
        if c <= 3 and hs:
            _, p, base = g.r.choice(hs)
            cl = CLAIMS + [len(d), len(d) - 1, len(d) - 32, len(d) - 31, len(d) + 1, len(d) - base, len(d) - base - 32, max(0, len(d) - base - 31), len(d) - base + 1, (len(d) - base) // 32, (len(d) - base) // 32 + 1, p, max(p - 32, 0)]
            e = put(e, p, num(max(0, g.r.choice(cl)) % (1 << 256)))
        elif c == 4 and hs:
            _, p, _b = g.r.choice(hs)
            e[p + g.r.randint(0, 27)] = g.r.choice([1, 128, 255])
        elif c == 5 and d:
            e = e[: g.r.randint(0, len(e))]
        elif c == 6 and d:
            e = e[: max(0, len(e) - g.r.choice([1, 30, 31, 32, 33, 63, 64]))]
        elif c == 7 and len(hs) > 1:
            (_, p, _b), (_, q, _c) = g.r.sample(hs, 2)
            a, b = e[p:p + 32], e[q:q + 32]
            e = put(put(e, p, b), q, a)
        elif c == 8 and d:
            for _i in range(g.r.randint(1, 3)):
                e[g.r.randrange(len(e))] = g.r.choice([0, 1, 2, 255, g.r.randint(0, 255)])
        elif d:
            p = 32 * g.r.randrange(len(e) // 32) if len(e) >= 32 else 0
            e = e[:p] + num(g.r.choice(g.sizes(CLAIMS, 1 << 255))) + e[p:]
        out.append(e)
    if sweep:
        for _, p, base in hs:
            for i in range(32):
                e = list(d)
                e[p + i] = g.r.choice([1, 2, 64, 128, 255])
                out.append(e)
        for n in range(0, len(d), 1 if len(d) <= 200 else 7):
            out.append(d[:n])
    return out


def words(g, n):
    """Data of small words: many of them are meaningful offsets, counts and lengths."""
    out = []
    for _ in range(n):
        out += num(g.r.choice([0, 0, 1, 1, 2, 3, 32, 32, 64, 64, 96, 96, 128, 160, 192, 5, 33, 31]))
    return out


def decode_corpus(g, scale):
    out = []
    base = [([t], None) for t in matrix()]
    for ts, _ in base:
        vs = [g.value(t, maxlen=2) for t in ts]
        for e in hostile(g, ts, vs, max(1, int(2 * scale))):
            out.append((ts, e))
    # every byte of every header, every truncation
    for ts in ([BYTES], [STRING, UINT()], [ARR(UINT())], [FARR(STRING, 2)], [TUP(UINT(), BYTES)], [ARR(TUP(BOOL, STRING))], [ARR(ARR(FB(3)))], [FARR(UINT(), 2), BYTES], [TUP(ARR(BOOL), FB(5)), BOOL]):
        for e in hostile(g, ts, [g.value(t, maxlen=1) for t in ts], 0, sweep=True):
            out.append((ts, e))
    for _ in range(int(250 * scale)):
        ts = g.types(g.r.choice([1, 2, 2, 3]), 1, 3)
        out.append((ts, words(g, g.r.randint(1, 14)) + g.blob(g.r.choice([0, 0, 0, 1, 31]))))
    for _ in range(int(120 * scale)):
        ts = g.types(3, 1, 3)
        vs = g.values(ts, maxlen=2)
        if len(enc(vs)) < 3000:
            for e in hostile(g, ts, vs, 3):
                out.append((ts, e))
    for _ in range(int(60 * scale)):
        ts = g.types(2, 1, 3)
        us = g.types(2, 1, 3)
        out.append((us, enc(g.values(ts, maxlen=2))[:3000]))
    for _ in range(int(40 * scale)):
        out.append((g.types(2, 1, 2), g.blob(g.r.choice([0, 1, 31, 32, 33, 64, 96, 100, 160]))))
    for u in UTF8:
        b = list(u)
        out.append(([STRING], num(32) + num(len(b)) + pad(b)))
        c = g.string(g.r.randint(0, 30)) + b + g.string(g.r.randint(0, 30))
        out.append(([ARR(STRING)], num(32) + num(1) + num(32) + num(len(c)) + pad(c)))
        out.append(([BYTES], num(32) + num(len(b)) + pad(b)))
    # bools, dirty padding, dirty addresses
    for w in [2, 3, 255, 256, 1 << 8, 1 << 255, (1 << 255) + 1, 1 << 16, (1 << 256) - 1, 257]:
        out.append(([BOOL], num(w)))
        out.append(([UINT(), TUP(BOOL, BOOL)], num(1) + num(0) + num(w)))
        out.append(([ARR(BOOL)], num(32) + num(2) + num(1) + num(w)))
        out.append(([ADDRESS, FB(3), UINT(8), INT(8)], num(w) + num(w) + num(w) + num(w)))
    for i in range(32):
        w = [0] * 32
        w[i] = g.r.choice([1, 2, 128, 255])
        out.append(([BOOL], w))
    for n in (1, 5, 31, 32):
        out.append(([BYTES, STRING], num(64) + num(128) + num(n) + [65] * n + [171] * (-n % 32) + num(n) + [66] * n + [172] * (-n % 32)))
        out.append(([BYTES], num(32) + num(n) + [65] * n))
        out.append(([ARR(BYTES)], num(32) + num(1) + num(32) + num(n) + [65] * n))
    # shared and backward tails
    out.append(([BYTES, STRING, BYTES], num(96) + num(96) + num(96) + num(4) + pad(list(b"abcd"))))
    out.append(([BYTES, BYTES], num(0) + num(32) + [7] * 64))
    out.append(([ARR(UINT()), ARR(UINT())], num(0) + num(0) + num(5)))
    out.append(([TUP(BYTES, UINT())], num(0) + num(0) + [0] * 64))
    out.append(([FARR(BYTES, 2)], num(0) + num(0)))
    out.append(([FARR(BYTES, 2)], num(0) + num(32) + [0] * 32))
    for t in matrix(False):
        out.append(([t], []))
        out.append(([t], [0] * 31))
        out.append(([t], [0] * 32))
        out.append(([t, t], [0] * 32))
    out.append(([], []))
    out.append(([], [1, 2, 3]))
    return out


def gen_C03(g, scale):
    out = []
    for i, (ts, d) in enumerate(decode_corpus(g, scale)):
        out.append(("decode", dict(types=ts, data=d, via=["plain", "plain", "fn_in", "fn_out"][i % 4])))
    for ts, vs in big_corpus(g, 0.5)[::3]:
        out.append(("bigdec", dict(types=ts, data=big_enc(vs))))
    return out


def big_enc(vs):
    """Runs of the encoding of run values, with some damage."""
    flat = []

    def one(v):
        if v["k"] in ("bytes", "string"):
            n = sum(x[0] for x in v["b"])
            return norm_runs([[1, x] for x in num(n)] + v["b"] + [[-n % 32, 0]])
        if v["k"] in ("array", "farray", "tuple"):
            return norm_runs(([[1, x] for x in num(len(v["ts"]))] if v["k"] == "array" else []) + seq(v["ts"]))
        return norm_runs([[1, x] for x in enc1(v)])

    def seq(ts):
        if len(ts) > 1000:
            n = len(ts)
            return [[32 * n, 0]]
        bodies = [one(t) for t in ts]
        off = sum(32 if tok_dynamic(t) else sum(x[0] for x in b) for t, b in zip(ts, bodies))
        h, tail = [], []
        for t, b in zip(ts, bodies):
            if tok_dynamic(t):
                h += [[1, x] for x in num(off)]
                off += sum(x[0] for x in b)
                tail += b
            else:
                h += b
        return norm_runs(h + tail)

    return seq(vs)


def random_event(g, depth=2, maxin=5):
    r = g.r
    n = r.randint(0, maxin)
    ins = []
    for i in range(n):
        nm = g.pick(["a", "b", "to", "from", "", "value", "x%d" % i, "x%d" % i, "x%d" % i, "\u00e9"])
        ins.append(dict(name=text(nm), kind=g.type(depth), indexed=False))
    anon = r.random() < 0.25
    ix = r.sample(range(n), min(n, r.choice([0, 1, 1, 2, 2, 3, 3] + ([4] if anon else []))))
    for i in ix:
        ins[i]["indexed"] = True
        if r.random() < 0.6:
            ins[i]["kind"] = g.elem()
    return dict(name=text(g.pick(["Transfer", "E", "Approval", "e_1", "", "LogNote", "E\u00e9"])), inputs=ins, anonymous=anon)


def sig_topic(ev):
    s = "".join(map(chr, ev["name"])) + "(" + ",".join(type_name(p["kind"]) for p in ev["inputs"]) + ")"
    return keccak256(s.encode())


def in_place(v):
    k = v["k"]
    if k in ("bytes", "string"):
        return list(v["b"])
    if k in ("array", "farray", "tuple"):
        return sum((pad(in_place(x)) for x in v["ts"]), [])
    return enc1(v)


def topic_of(v):
    return keccak256(in_place(v)) if v["k"] in ("bytes", "string", "array", "farray", "tuple") else enc1(v)


def emit(g, ev):
    vals = [g.value(p["kind"], maxlen=2) for p in ev["inputs"]]
    tops = [] if ev["anonymous"] else [sig_topic(ev)]
    tops += [topic_of(v) for p, v in zip(ev["inputs"], vals) if p["indexed"]]
    return vals, tops, enc([v for p, v in zip(ev["inputs"], vals) if not p["indexed"]])


def hostile_logs(g, ev, k):
    """An emitted log and damaged ones."""
    vals, tops, data = emit(g, ev)
    plain = [p["kind"] for p in ev["inputs"] if not p["indexed"]]
    pv = [v for p, v in zip(ev["inputs"], vals) if not p["indexed"]]
    out = [(tops, data)]
    for _ in range(k):
        ts, d = [list(t) for t in tops], list(data)
        c = g.r.randint(0, 9)
        if c == 0:
            ts = ts[:-1] if ts else [num(1)]
        elif c == 1:
            ts = [sig_topic(ev)] + ts if g.r.random() < 0.3 else ts + [g.word()]
        elif c == 2 and ts:
            ts[0][g.r.randint(0, 31)] ^= g.r.choice([1, 128])
        elif c == 3 and len(ts) > 1:
            i = g.r.randint(1, len(ts) - 1)
            ts[i] = g.word()
        elif c == 4 and len(ts) > 1:
            i, j = g.r.sample(range(len(ts)), 2)
            ts[i], ts[j] = ts[j], ts[i]
        elif c == 5:
            ts = []
        elif c == 6:
            d = d + g.blob(g.r.choice([1, 32]))
        elif c == 7 and not ev["anonymous"] and ts:
            ts = ts[1:]
        elif c == 8:
            d = []
        else:
            d = hostile(g, plain, pv, 1)[0] if plain else d
        out.append((ts, d))
    return out


def gen_C04(g, scale):
    out = []
    vias = ["plain", "fn_in", "fn_out", "log"]
    for i, (ts, d) in enumerate(decode_corpus(g, scale * 0.7)):
        out.append(("cost", dict(types=ts, data=d, runs=False, via=vias[i % 4])))
    # claims far beyond the data, over every element type, with little and with much real data behind
    for t in SHORT + [ARR(UINT()), FARR(UINT(), 2), TUP(UINT(), BOOL), TUP(STRING, UINT()), FARR(STRING, 2), ARR(ARR(UINT())), ARR(TUP(UINT(), ARR(BYTES)))]:
        for claim in (33, 1 << 16, (1 << 24) + 1, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 40) + 3, 1 << 63, (1 << 64) - 1, (1 << 256) - 1):
            for tail in (0, 2):
                d = num(32) + num(claim) + words(g, tail)
                out.append(("cost", dict(types=[ARR(t)], data=d, runs=False, via=g.r.choice(vias))))
        for n in (100000, 1 << 20):
            claim = g.r.choice([n // 32 + 1, n, (1 << 32) - 1])
            d = norm_runs([[1, x] for x in num(32) + num(claim)] + [[n, 0]])
            if t in (UINT(), BYTES, STRING, BOOL, ADDRESS, FB(4)):
                out.append(("cost", dict(types=[ARR(t)], data=d, runs=True, via=g.r.choice(vias[:1] + vias[3:]))))
    for t in (BYTES, STRING):
        for claim in CLAIMS:
            d = norm_runs([[1, x] for x in num(32) + num(claim)] + [[g.r.choice([0, 1, 32, 70000, 1 << 20]), 1]])
            out.append(("cost", dict(types=[t], data=d, runs=True, via=g.r.choice(vias))))
    # nested claims: an array whose elements claim again
    for depth in (2, 3, 4):
        t = UINT()
        d = []
        for _ in range(depth):
            t = ARR(t)
            d += num(32) + num(g.r.choice([1, 1, 2, (1 << 32) - 1]))
        for _ in range(int(6 * scale) + 2):
            d2 = []
            for _i in range(depth):
                d2 += num(32) + num(g.r.choice([1, 1, 2, (1 << 31), (1 << 32) - 1]))
            out.append(("cost", dict(types=[t], data=d2 + words(g, 3), runs=False, via=g.r.choice(vias))))
    # many elements pointing at the same tail
    for n in (5, 20, 60):
        d = num(32) + num(n) + num(32 * n) * n + num(3) + words(g, 3)
        out.append(("cost", dict(types=[ARR(ARR(UINT()))], data=d, runs=False, via="plain")))
        out.append(("cost", dict(types=[ARR(BYTES)], data=d, runs=False, via="plain")))
    for _ in range(int(150 * scale)):
        ev = random_event(g)
        for ts, d in hostile_logs(g, ev, 3):
            if len(d) < 3000:
                out.append(("plog", dict(ev=ev, topics=ts, data=d)))
    # empty values: whatever is asked for nothing
    for t in matrix(False):
        out.append(("cost", dict(types=[t], data=[], runs=False, via=g.r.choice(vias))))
    return out


# ---- ill-typed values ----
def other_kind(g, v):
    ks = [ADDRESS, BYTES, BOOL, STRING, INT(), UINT(), FB(4), ARR(UINT()), FARR(UINT(), 1), TUP(UINT())]
    t = g.r.choice([t for t in ks if t["k"] != v["k"]])
    return g.value(t)


def spoil(g, v, t):
    """A value close to v of type t that may or may not fit it."""
    k = v["k"]
    if k in ("array", "farray", "tuple") and v["ts"] and g.r.random() < 0.6:
        ts = list(v["ts"])
        i = g.r.randrange(len(ts))
        ts[i] = spoil(g, ts[i], t["t"] if k != "tuple" else t["ts"][i])
        return dict(k=k, ts=ts)
    c = g.r.randint(0, 5)
    if k in ("array", "farray", "tuple"):
        ts = list(v["ts"])
        if c == 0 and ts:
            return dict(k=k, ts=ts[:-1])
        if c == 1:
            return dict(k=k, ts=ts + [ts[-1] if ts else g.value(UINT())])
        if c == 2 and ts:
            return dict(k=k, ts=ts[:-1] + [other_kind(g, ts[-1])])
        if c == 3:
            return dict(k={"array": "farray", "farray": "array", "tuple": "farray"}[k], ts=ts)
        if c == 4 and len(ts) > 1:
            return dict(k=k, ts=ts[::-1])
        return dict(k=k, ts=[])
    if k == "fbytes" and c < 4:
        n = g.r.choice([0, 1, t["n"] - 1, t["n"] + 1, 32, t["n"]])
        return dict(k=k, b=g.blob(max(0, min(n, 33))))
    if k in ("int", "uint") and c < 3:
        return dict(k="int" if k == "uint" else "uint", w=v["w"])
    if k == "bytes" and c < 3:
        return dict(k=g.r.choice(["fbytes", "string"]), b=[65] * g.r.choice([1, 4, 32]))
    if k == "string" and c < 3:
        return dict(k="bytes", b=v["b"])
    return other_kind(g, v)


def spoil_type(g, t):
    k = t["k"]
    if k in ("array", "farray") and g.r.random() < 0.5:
        return dict(t, t=spoil_type(g, t["t"]))
    if k == "tuple" and g.r.random() < 0.6:
        ts = list(t["ts"])
        i = g.r.randrange(len(ts))
        ts[i] = spoil_type(g, ts[i])
        return dict(t, ts=ts)
    if k == "farray":
        return dict(t, n=max(1, t["n"] + g.r.choice([-1, 1])))
    if k == "tuple":
        ts = list(t["ts"])
        return dict(t, ts=ts + [UINT()]) if g.r.random() < 0.5 or len(ts) == 1 else dict(t, ts=ts[:-1])
    if k == "fbytes":
        return FB(max(1, min(32, t["n"] + g.r.choice([-1, 1]))))
    if k in ("int", "uint"):
        return T(k, n=g.r.choice(WIDTHS)) if g.r.random() < 0.5 else T("int" if k == "uint" else "uint", n=t["n"])
    return g.elem()


def ok_value(v, top=True):
    """Inside the scope: no empty tuples and fixed arrays, bytesN of at most 33 bytes."""
    if v["k"] in ("farray", "tuple") and not v["ts"]:
        return False
    if v["k"] in ("array", "farray", "tuple"):
        return all(ok_value(x) for x in v["ts"])
    return True


def pairs(g, scale):
    out = []
    for t in matrix():
        v = g.value(t, maxlen=2)
        out.append(([t], [v]))
        for _ in range(max(1, int(2 * scale))):
            out.append(([t], [spoil(g, v, t)]))
        out.append(([spoil_type(g, t)], [v]))
    for _ in range(int(350 * scale)):
        ts = g.types(3, 0, 4)
        vs = g.values(ts, maxlen=2)
        c = g.r.randint(0, 6)
        if c == 0:
            pass
        elif c == 1 and vs:
            vs = vs[:-1]
        elif c == 2:
            vs = vs + [g.value(g.elem())]
        elif c == 3 and vs:
            ts = list(ts)
            i = g.r.randrange(len(ts))
            ts[i] = spoil_type(g, ts[i])
        elif c == 4 and len(vs) > 1:
            vs = vs[::-1]
        elif vs:
            i = g.r.randrange(len(vs))
            vs = list(vs)
            vs[i] = spoil(g, vs[i], ts[i])
        out.append((ts, vs))
    for n in (16, 17, 20):
        ts = [UINT()] * n
        vs = g.values(ts)
        out += [(ts, vs), (ts, vs[:-1]), (ts, vs + vs[:1]), ([TUP(*ts)], [dict(k="tuple", ts=vs)]), ([TUP(*ts)], [dict(k="tuple", ts=vs[:-1])]),
                ([TUP(*ts)], [dict(k="tuple", ts=vs[:-1] + [dict(k="bool", v=True)])]),
                ([ARR(UINT())], [dict(k="array", ts=vs[:-1] + [dict(k="bool", v=True)])]),
                ([FARR(UINT(), n)], [dict(k="farray", ts=vs[:-1] + [dict(k="int", w=num(3))])]),
                ([FARR(UINT(), n)], [dict(k="farray", ts=vs[:-1])])]
    for n in range(1, 33):
        for m in {0, 1, n - 1, n, n + 1, 32}:
            if 0 <= m <= 33:
                out.append(([FB(n)], [dict(k="fbytes", b=[171] * m)]))
    return out


NAMES = ["f", "transfer", "balanceOf", "x_y", "\u00e9t\u00e9", "", "a" * 40, "$", "_"]


def gen_C05(g, scale):
    out = []
    for i, (ts, vs) in enumerate(pairs(g, scale)):
        out.append(("check", dict(types=ts, toks=vs)))
        if i % 3 == 0:
            out.append(("call", dict(name=text(g.pick(NAMES[:5])), types=ts, outs=[], toks=vs)))
        elif i % 3 == 1:
            out.append(("create", dict(types=ts, code=g.blob(g.r.choice([0, 1, 4, 31, 32, 33, 100])), toks=vs)))
    for n in (0, 1, 2):
        ts = [UINT()] * n
        out.append(("call", dict(name=text("f"), types=ts, outs=[], toks=g.values(ts))))
        out.append(("create", dict(types=ts, code=[], toks=g.values(ts))))
        out.append(("create", dict(types=ts, code=[96, 128], toks=g.values(ts + [UINT()]))))
    return out


def small_value(g, t):
    """The smallest value: hashing is what is looked at."""
    k = t["k"]
    if k == "array":
        return dict(k=k, ts=[])
    if k == "farray":
        return dict(k=k, ts=[small_value(g, t["t"])] * t["n"])
    if k == "tuple":
        return dict(k=k, ts=[small_value(g, x) for x in t["ts"]])
    if k in ("bytes", "string"):
        return dict(k=k, b=[])
    return g.value(t)


def gen_C06(g, scale):
    out = []

    def both(name, ts):
        out.append(("call", dict(name=text(name), types=ts, outs=g.types(1, 0, 2), toks=[small_value(g, t) for t in ts])))
        ev = dict(name=text(name), inputs=[dict(name=text("p%d" % i), kind=t, indexed=g.r.random() < 0.3) for i, t in enumerate(ts)], anonymous=g.r.random() < 0.2)
        out.append(("evsig", dict(ev=ev)))
        out.append(("fnsig", dict(name=text(name), ins=ts, outs=g.types(2, 0, 3))))

    for t in matrix():
        if g.r.random() < 0.5 * scale:
            both(g.pick(NAMES), [t])
        out.append(("fnsig", dict(name=text(g.pick(NAMES)), ins=[t], outs=[g.type(2)])))
    for w in (8, 16, 128, 248, 256):
        both("w", [UINT(w), INT(w)])
    for n in (1, 9, 10, 31, 32):
        both("b", [FB(n), ARR(FB(n))])
    for n in (1, 9, 10, 99, 100):
        out.append(("fnsig", dict(name=text("fa"), ins=[FARR(UINT(), n), FARR(FARR(BOOL, n), 2), ARR(FARR(STRING, n))], outs=[])))
    both("fa", [FARR(UINT(), 10), FARR(FARR(BOOL, 3), 2), ARR(FARR(STRING, 4))])
    for n in NAMES:
        both(n, g.types(2, 0, 2))
    # texts around the block size of the hash (136 bytes)
    for target in (134, 135, 136, 137, 138, 270, 271, 272, 273):
        name = "n" * (target - len("(uint256,bool)"))
        both(name, [UINT(), BOOL])
    for n in (5, 9, 14, 17):
        both("many", [g.elem() for _ in range(n)])
    for _ in range(int(60 * scale)):
        both(g.pick(NAMES) + str(g.r.randint(0, 99)), g.types(3, 0, 4))
    # same name, different types, one after the other
    for ts in ([], [UINT()], [UINT(8)], [INT()], [TUP(UINT())], [ARR(UINT())], [FARR(UINT(), 1)], [UINT(), UINT()]):
        both("over", ts)
    return out


# ---- type texts ----
FRAGS = ["uint", "int", "uint256", "uint8", "int16", "address", "bool", "bytes", "bytes32", "bytes1", "string", "tuple", "(", ")", "[", "]", "[]", "[2]", "[10]", ",", "()", "(uint256)", " ", "0", "3", "-", "+", "x", "\u00e9", "fixed", "[[", "]]", "(,", ",)", "[-1]", "[a]", "[1", "2]"]


def mutate_text(g, s):
    c = g.r.randint(0, 7)
    if not s:
        return g.pick(FRAGS)
    i = g.r.randint(0, len(s))
    j = g.r.randrange(len(s))
    if c == 0:
        return s[:j] + s[j + 1:]
    if c == 1:
        return s[:i] + g.r.choice("()[],0123456789 -+aut\u00e9") + s[i:]
    if c == 2:
        return s[:j] + g.r.choice("()[],0129 x") + s[j + 1:]
    if c == 3:
        return s[:i] + g.pick(FRAGS) + s[i:]
    if c == 4:
        return s + g.r.choice(["[]", "[3]", "]", ")", "[", "(", ",", " ", "x", "0"])
    if c == 5:
        return g.r.choice(["(", ")", "[", ",", " ", "u", "[]"]) + s
    if c == 6 and len(s) > 1:
        k = min(j, len(s) - 2)
        return s[:k] + s[k + 1] + s[k] + s[k + 2:]
    return s[:j]


def type_ok(t):
    """Solidity has it: sizes at least one, no empty tuple."""
    k = t["k"]
    if k == "array":
        return type_ok(t["t"])
    if k == "farray":
        return t["n"] > 0 and type_ok(t["t"])
    if k == "tuple":
        return len(t["ts"]) > 0 and all(map(type_ok, t["ts"]))
    return True


def gen_C07(g, scale):
    out = []
    ts = matrix()
    for n in range(8, 257, 8):
        ts += [UINT(n), INT(n)]
    for n in range(1, 33):
        ts.append(FB(n))
    for n in (1, 9, 10, 32, 99, 256, 1000, 65536, 99999999):
        ts += [FARR(UINT(), n), ARR(FARR(BOOL, n)), FARR(TUP(BOOL, STRING), n)]
    for _ in range(int(250 * scale)):
        ts.append(g.type(g.r.choice([3, 4, 5])))
    t = UINT()
    for d in range(12):
        t = g.r.choice([ARR, lambda x: FARR(x, 3), lambda x: TUP(x), lambda x: TUP(x, BOOL), lambda x: TUP(BOOL, x), lambda x: TUP(x, x) if d < 5 else TUP(x)])(t)
        ts.append(t)
    ts.append(TUP(*[g.elem() for _ in range(20)]))
    for t in ts:
        out.append(("write", dict(type=t)))
    texts = ["uint", "int", "uint[]", "int[3]", "(uint,int)", "((uint)[],int[2])[]", "", "(", ")", "[", "]", "[]", "()", "(,)", "(((", ")))", "uint256[", "uint256]", "uint256[]]", "uint256[[]",
             "uint256[][", "uint[a]", "uint[-1]", "uint[ 1]", "bytes33", "bytes0", "uint0", "uint7", "uint512", "int+8", "uint08", "bytes032", "[3]uint", "uint256 ", " uint256", "Uint256", "bytes3 2",
             "(uint256", "uint256)", "(uint256))", "((uint256)", "(uint256)(bool)", "(uint256)bool", "bool(uint256)", "(uint256,bool)[2][]", "(uint256,,bool)", "(uint256,)", "(,uint256)", "uint256,bool",
             "tuple", "tuple[]", "tuple[3]", "tuple(uint256)", "(tuple)", "((),())", "()[]", "(()", "uint256[99999999999999999999999]", "bytes99999999999999999999",
             "uint256[1][2][3][4]", "\u00e9", "uint256[\u00e9]", "(uint256\u00e9)", "\u00e9)", "(\u00e9", "\u00e9]", "uint\u0661", "bytes\u0663", "fixed128x18", "function", "mapping(address=>uint256)", "boolean", "addresss",
             "address payable", "bytesbytes", "uintint", "intuint8", "stringbool", "string8", "bool8", "address20", "uint256[2,3]", "uint256(2)", "uint256[()]", "(uint256[)]", "([uint256])", "(uint256]", "[uint256)"]
    for t in [x for x in ts if len(type_name(x)) < 60 and type_ok(x)]:
        if g.r.random() < 0.35 * scale:
            s = type_name(t)
            if g.r.random() < 0.3:
                s = s.replace("uint256", "uint").replace("int256", "int")
            texts.append(s)
            for _ in range(2):
                texts.append(mutate_text(g, s))
            texts.append(mutate_text(g, mutate_text(g, s)))
    for _ in range(int(250 * scale)):
        texts.append("".join(g.pick(FRAGS) for _ in range(g.r.randint(1, 5))))
    for i, s in enumerate(texts):
        out.append(("read", dict(text=text(s), via="json" if i % 4 == 0 else "reader")))
    return out


# ---- documents ----
def S(s):
    return dict(j="str", t=text(s) if isinstance(s, str) else s)


def B(b):
    return dict(j="bool", b=b)


def A(xs):
    return dict(j="arr", a=xs)


def O(kvs):
    return dict(j="obj", o=[[text(k) if isinstance(k, str) else k, v] for k, v in kvs])


NULL = dict(j="null")


def N(s):
    return dict(j="num", n=text(str(s)))


def abi_name(t):
    k = t["k"]
    if k == "tuple":
        return "tuple"
    if k == "array":
        return abi_name(t["t"]) + "[]"
    if k == "farray":
        return abi_name(t["t"]) + "[%d]" % t["n"]
    return type_name(t)


def inner_tuple(t):
    while t["k"] in ("array", "farray"):
        t = t["t"]
    return t["ts"] if t["k"] == "tuple" else None


JUNK = [NULL, B(True), B(False), N(0), N(-3), N("1.5"), N("1e3"), S("x"), S(""), A([]), A([N(1), NULL]), O([]), O([("name", S("y")), ("type", S("z"))]), A([O([("components", NULL)])])]


class Docs:
    def __init__(self, g, plain=False):
        self.g, self.r, self.plain = g, g.r, plain

    def extras(self, kvs, known):
        r = self.r
        if self.plain:
            return kvs
        if r.random() < 0.25:
            for _ in range(r.randint(1, 2)):
                k = r.choice(["payable", "gas", "doc", "signature", "x", "Name", "indexed_", "", "\u00e9", "components_", "source"])
                if k not in known and all(k != a for a, _ in kvs):
                    kvs.append((k, r.choice(JUNK)))
        if r.random() < 0.6:
            r.shuffle(kvs)
        return kvs

    def kind(self, t):
        name = abi_name(t)
        if not self.plain and self.r.random() < 0.15:
            name = name.replace("uint256", "uint").replace("int256", "int")
        kvs = [("type", S(name))]
        ms = inner_tuple(t)
        if ms is not None:
            kvs.append(("components", A([self.member(m) for m in ms])))
        return kvs

    def member(self, t):
        kvs = self.kind(t)
        if self.r.random() < 0.8:
            kvs.append(("name", S(self.r.choice(["a", "b", "", "x", "\u00e9"]))))
        if self.r.random() < 0.3:
            kvs.append(("internalType", S(self.g.pick(["struct X.Y", abi_name(t), type_name(t), "tuple", ""]))))
        return O(self.extras(kvs, ("internalType", "indexed")))

    def param(self, p):
        kvs = self.kind(p["kind"]) + [("name", S(p["name"]))]
        if p.get("internal"):
            kvs.append(("internalType", S(p["internal"][0])))
        return O(self.extras(kvs, ("internalType",)))

    def event_param(self, p):
        kvs = self.kind(p["kind"]) + [("name", S(p["name"]))]
        if p["indexed"] or self.r.random() < 0.7:
            kvs.append(("indexed", B(p["indexed"])))
        return O(self.extras(kvs, ("indexed", "internalType")))

    def name(self, n):
        if not self.plain and self.r.random() < 0.08:
            return S(n + text(self.r.choice(["(", "()", "(uint256)", "(a(b)c"])))
        return S(n)

    def function(self, f):
        kvs = [("type", S("function")), ("name", self.name(f["name"])), ("inputs", A([self.param(p) for p in f["inputs"]])), ("outputs", A([self.param(p) for p in f["outputs"]]))]
        if f["constant"] or self.r.random() < 0.6:
            kvs.append(("constant", B(f["constant"])))
        m = "".join(map(chr, f["mutability"]))
        if m != "nonpayable" or self.r.random() < 0.6:
            kvs.append(("stateMutability", S(m)))
        return O(self.extras(kvs, ("components",)))

    def event(self, e):
        kvs = [("type", S("event")), ("name", self.name(e["name"])), ("inputs", A([self.event_param(p) for p in e["inputs"]])), ("anonymous", B(e["anonymous"]))]
        return O(self.extras(kvs, ()))

    def doc(self, c):
        es = [O(self.extras([("type", S("constructor")), ("inputs", A([self.param(p) for p in k["inputs"]]))] + ([("stateMutability", S("payable"))] if self.r.random() < 0.5 else []), ())) for k in c["ctor"]]
        es += [self.function(f) for f in c["fns"]]
        if c["fallback"]:
            es.append(O(self.extras([("type", S("fallback"))] + ([("stateMutability", S("payable"))] if self.r.random() < 0.5 else []), ())))
        if c["receive"]:
            es.append(O(self.extras([("type", S("receive"))] + ([("stateMutability", S("payable"))] if self.r.random() < 0.5 else []), ())))
        es += [self.event(e) for e in c["evs"]]
        if self.r.random() < 0.5 and not self.plain:
            self.r.shuffle(es)
        return A(es)


FNAMES = ["f", "g", "transfer", "F", "f_", "", "set", "\u00e9", "get"]
ENAMES = ["E", "Transfer", "e", "f", "", "Log"]


def gen_param(g, depth, internal=True):
    return dict(name=text(g.pick(["", "a", "b", "to", "a", "\u00e9 b", "_x", "type", "indexed"])), kind=g.type(depth),
                internal=[text(g.pick(["uint256", "struct C.S", "contract X", "", "tuple", "struct C.S[]", "bool", "address payable"]))] if internal and g.r.random() < 0.3 else [])


def gen_iface(g, depth=2, nf=6, ne=4, overloads=0.5):
    r = g.r
    fns, evs = [], []
    for _ in range(r.randint(0, nf)):
        name = g.pick(FNAMES[:2]) if r.random() < overloads else g.pick(FNAMES)
        fns.append(dict(name=text(name), inputs=[gen_param(g, depth) for _ in range(r.randint(0, 3))], outputs=[gen_param(g, depth) for _ in range(r.randint(0, 2))],
                        constant=r.random() < 0.3, mutability=text(r.choice(["pure", "view", "nonpayable", "payable"]))))
    for _ in range(r.randint(0, ne)):
        e = random_event(g, depth, 3)
        e["name"] = text(r.choice(ENAMES[:2]) if r.random() < overloads else r.choice(ENAMES))
        evs.append(e)
    return dict(ctor=[dict(inputs=[gen_param(g, depth) for _ in range(r.randint(0, 3))])] if r.random() < 0.6 else [], fns=fns, evs=evs,
                fallback=r.random() < 0.4, receive=r.random() < 0.4)


def nodes(doc, path=()):
    out = [path]
    if doc["j"] == "arr":
        for i, x in enumerate(doc["a"]):
            out += nodes(x, path + (("a", i),))
    elif doc["j"] == "obj":
        for i, (_, x) in enumerate(doc["o"]):
            out += nodes(x, path + (("o", i),))
    return out


def copy(doc):
    if doc["j"] == "arr":
        return dict(j="arr", a=[copy(x) for x in doc["a"]])
    if doc["j"] == "obj":
        return dict(j="obj", o=[[list(k), copy(v)] for k, v in doc["o"]])
    return dict(doc)


def at(doc, path):
    for k, i in path:
        doc = doc["a"][i] if k == "a" else doc["o"][i][1]
    return doc


def replace(doc, path, x):
    if not path:
        return x
    d = at(doc, path[:-1])
    k, i = path[-1]
    if k == "a":
        d["a"][i] = x
    else:
        d["o"][i][1] = x
    return doc


def damage(g, doc):
    """A document that may have become unacceptable (never an entry written as a list)."""
    doc = copy(doc)
    r = g.r
    ps = nodes(doc)
    objs = [p for p in ps if at(doc, p)["j"] == "obj" and at(doc, p)["o"]]
    for _ in range(20):
        c = r.randint(0, 9)
        if c == 0 and objs:                       # drop a key
            d = at(doc, r.choice(objs))
            d["o"].pop(r.randrange(len(d["o"])))
            return doc
        if c == 1 and objs:                       # repeat a key
            d = at(doc, r.choice(objs))
            k, v = r.choice(d["o"])
            d["o"].insert(r.randint(0, len(d["o"])), [list(k), copy(v) if r.random() < 0.5 else r.choice(JUNK[:9])])
            return doc
        if c == 2 and len(ps) > 1:                # another value
            p = r.choice(ps[1:])
            if p[-1][0] == "a" and len(p) == 1:
                return replace(doc, p, r.choice([NULL, N(1), S("function"), B(True), O([])]))
            return replace(doc, p, r.choice([j for j in JUNK if j["j"] != "arr" or p[-1][0] == "o"]))
        if c == 3 and objs:                       # misspell a key
            d = at(doc, r.choice(objs))
            e = r.choice(d["o"])
            s = "".join(map(chr, e[0]))
            e[0] = text(r.choice([s.upper(), s + "s", s + " ", s[:-1], s.capitalize()]))
            return doc
        strs = [p for p in ps if at(doc, p)["j"] == "str"]
        if c == 4 and strs:                       # another text
            p = r.choice(strs)
            s = "".join(map(chr, at(doc, p)["t"]))
            t = r.choice(["function", "event", "constructor", "fallback", "receive", "error", "", "uint256", "tuple", "tuple[]", "uint256[", "bytes33x", "bool]", "(uint256", "view", "pure ", "Payable", "external", "a(b", mutate_text(g, s)])
            # inline tuples have no defined meaning in a document
            if "(" in t and len(p) > 1:
                key = "".join(map(chr, at(doc, p[:-1])["o"][p[-1][1]][0])) if p[-1][0] == "o" else ""
                if key == "type":
                    continue
            return replace(doc, p, S(t))
        if c == 5:
            return r.choice([NULL, O([("abi", doc)]), S("[]"), N(3), B(True), A([doc]) if doc["a"] else A([O([])])])
        if c == 6:                                # not JSON at all
            raw = r.choice(["", "[", "]", "[{]", "[{\"type\":}]", "[nul]", "[,]", "{\"a\":1", "[1 2]", "[\"\\x\"]", "[{\"type\":\"fallback\"},]", "[{'type':'fallback'}]", "[\"\ud7ff", "/**/[]"])
            return dict(j="raw", t=text(raw))
        comps = [p for p in ps if p and p[-1][0] == "o" and "".join(map(chr, at(doc, p[:-1])["o"][p[-1][1]][0])) == "components"]
        if c == 7 and comps:
            p = r.choice(comps)
            at(doc, p[:-1])["o"].pop(p[-1][1])
            return doc
        if c == 8 and doc["a"]:                   # an entry once more, or a second constructor
            doc["a"].insert(r.randint(0, len(doc["a"])), copy(r.choice(doc["a"])))
            return doc
        if c == 9 and objs:
            d = at(doc, r.choice(objs))
            d["o"].append([text(r.choice(["type", "name", "inputs", "components", "anonymous", "indexed", "constant", "stateMutability", "internalType"])), r.choice(JUNK[:9] + [S("uint8"), S("view"), A([])])])
            return doc
    return doc


def lookup_names(g, c):
    ns = {tuple(f["name"]) for f in c["fns"]} | {tuple(e["name"]) for e in c["evs"]} | {tuple(text(x)) for x in ("f", "F", "nope", "", "f(", "Transfer ", "E")}
    ns = sorted(ns)
    g.r.shuffle(ns)
    return [list(n) for n in ns[:6]]


def param_matrix_docs(g):
    """Every shape of struct: tuples in arrays in tuples."""
    out = []
    inner = [TUP(UINT()), TUP(BOOL, STRING), TUP(TUP(UINT(), BYTES), ADDRESS), TUP(ARR(TUP(BOOL, UINT(8))), FB(4)), TUP(FARR(TUP(STRING), 2)), TUP(TUP(TUP(UINT(), BOOL), STRING), ARR(ARR(TUP(FB(2)))))]
    for t in inner:
        for w in (lambda x: x, ARR, lambda x: FARR(x, 3), lambda x: ARR(ARR(x)), lambda x: FARR(ARR(x), 2), lambda x: ARR(FARR(x, 1))):
            p = dict(name=text("s"), kind=w(t), internal=[])
            f = dict(name=text("f"), inputs=[p], outputs=[dict(p, internal=[text("struct S")])], constant=False, mutability=text("view"))
            e = dict(name=text("E"), inputs=[dict(name=text("s"), kind=w(t), indexed=g.r.random() < 0.5)], anonymous=g.r.random() < 0.3)
            out.append(dict(ctor=[dict(inputs=[p])], fns=[f], evs=[e], fallback=False, receive=False))
    return out


def gen_C08(g, scale):
    out = []

    def ev(doc, c):
        out.append(("load", dict(doc=doc, style=g.r.choice([0, 0, 1, 2]), via=g.r.choice(["reader", "str", "slow"]), names=lookup_names(g, c))))

    for c in param_matrix_docs(g):
        ev(Docs(g).doc(c), c)
    # many overloads
    for n in (5, 9):
        fns = [dict(name=text("f"), inputs=[dict(name=text("a"), kind=g.type(1), internal=[])] * (i % 4), outputs=[], constant=False, mutability=text(["pure", "view", "payable"][i % 3])) for i in range(n)]
        evs = [dict(name=text("E"), inputs=[dict(name=text("a%d" % i), kind=UINT(8 * i + 8), indexed=i % 2 == 0)], anonymous=i % 3 == 0) for i in range(n)]
        c = dict(ctor=[], fns=fns, evs=evs, fallback=True, receive=False)
        ev(Docs(g).doc(c), c)
    for fb in (False, True):
        for rc in (False, True):
            c = dict(ctor=[], fns=[], evs=[], fallback=fb, receive=rc)
            ev(Docs(g).doc(c), c)
    for _ in range(int(160 * scale)):
        c = gen_iface(g, g.r.choice([1, 2, 3]))
        doc = Docs(g).doc(c)
        if len(str(doc)) > 60000:
            continue
        ev(doc, c)
        if len(str(doc)) < 25000:
            for _ in range(3):
                ev(damage(g, doc), c)
    # one damaged small entry at a time
    small = dict(ctor=[], fns=[dict(name=text("f"), inputs=[dict(name=text("a"), kind=TUP(UINT(), ARR(BOOL)), internal=[text("struct S")])], outputs=[dict(name=text(""), kind=BOOL, internal=[])], constant=True, mutability=text("view"))],
                 evs=[dict(name=text("E"), inputs=[dict(name=text("x"), kind=ARR(TUP(BYTES)), indexed=True)], anonymous=False)], fallback=False, receive=True)
    for _ in range(int(450 * scale)):
        ev(damage(g, Docs(g, plain=g.r.random() < 0.5).doc(small)), small)
    return out


def gen_C09(g, scale):
    out = []

    def ev(doc):
        out.append(("ser", dict(doc=doc, style=0)))

    for c in param_matrix_docs(g):
        ev(Docs(g, plain=True).doc(c))
    for t in matrix(False):
        p = dict(name=text("p"), kind=t, internal=[text("x")] if g.r.random() < 0.5 else [])
        c = dict(ctor=[dict(inputs=[p])], fns=[dict(name=text("f"), inputs=[p, p], outputs=[p], constant=g.r.random() < 0.5, mutability=text(g.r.choice(["pure", "view", "nonpayable", "payable"])))],
                 evs=[dict(name=text("E"), inputs=[dict(name=text("q"), kind=t, indexed=g.r.random() < 0.5)], anonymous=g.r.random() < 0.5)], fallback=g.r.random() < 0.5, receive=g.r.random() < 0.5)
        ev(Docs(g).doc(c))
    for m in ("pure", "view", "nonpayable", "payable"):
        for k in (False, True):
            for bits in range(4):
                c = dict(ctor=[], fns=[dict(name=text("f"), inputs=[], outputs=[], constant=k, mutability=text(m))], evs=[], fallback=bits & 1 == 1, receive=bits & 2 == 2)
                ev(Docs(g).doc(c))
    for _ in range(int(200 * scale)):
        c = gen_iface(g, g.r.choice([1, 2, 3]), overloads=0.7)
        doc = Docs(g).doc(c)
        if len(str(doc)) < 40000:
            ev(doc)
    return out


# ---- events ----
def log_events(g, scale):
    evs = []
    # one indexed and one plain param of every type, in both orders
    for t in ELEMS + [w for e in (UINT(), STRING) for w in wraps(e)]:
        a = dict(name=text("a"), kind=t, indexed=True)
        b = dict(name=text("b"), kind=t, indexed=False)
        evs.append(dict(name=text("E"), inputs=[a, b] if g.r.random() < 0.5 else [b, a], anonymous=False))
    # every placement of three indexed among five, names that repeat or are missing
    for mask in range(32):
        if bin(mask).count("1") <= 3 and g.r.random() < 0.6 * min(1, scale):
            ins = [dict(name=text(g.r.choice(["", "a", "a", "b", "p%d" % i])), kind=g.r.choice([UINT(), BOOL, STRING, ADDRESS, FB(4), INT(64), BYTES]), indexed=bool(mask >> i & 1)) for i in range(5)]
            evs.append(dict(name=text("M"), inputs=ins, anonymous=g.r.random() < 0.2))
    for n in range(5):
        evs.append(dict(name=text("A"), inputs=[dict(name=text("x"), kind=g.elem(), indexed=True) for _ in range(n)], anonymous=True))
    # more than one occurrence of everything
    evs.append(dict(name=text("Big"), inputs=[dict(name=text("q%d" % i), kind=g.elem(), indexed=i in (1, 5, 11)) for i in range(14)], anonymous=False))
    for _ in range(int(80 * scale)):
        evs.append(random_event(g, 3))
    return evs


def gen_C10(g, scale):
    out = []
    for ev in log_events(g, scale):
        for ts, d in hostile_logs(g, ev, 4):
            if len(d) < 3000:
                out.append(("plog", dict(ev=ev, topics=ts, data=d)))
    # bool topics, and topics with bits outside the type
    for w in (0, 1, 2, 256, 1 << 255):
        ev = dict(name=text("B"), inputs=[dict(name=text("x"), kind=BOOL, indexed=True), dict(name=text("y"), kind=ADDRESS, indexed=True), dict(name=text("z"), kind=FB(2), indexed=True)], anonymous=False)
        for i in range(3):
            ts = [sig_topic(ev)] + [num(1)] * 3
            ts[i + 1] = num(w)
            out.append(("plog", dict(ev=ev, topics=ts, data=[])))
    return out


def requests(g, ev):
    ix = [p for p in ev["inputs"] if p["indexed"]]
    out = []
    for i in range(3):
        c = g.r.random()
        t = ix[i]["kind"] if i < len(ix) else g.elem()
        if i >= len(ix) and g.r.random() < 0.93 or c < 0.3:
            out.append(dict(k="any"))
        elif c < 0.7:
            v = g.value(t, maxlen=2)
            if g.r.random() < 0.1:
                v = spoil(g, v, t)
            out.append(dict(k="this", v=v))
        else:
            vs = [g.value(t, maxlen=2) for _ in range(g.r.choice([0, 1, 1, 2, 3]))]
            if vs and g.r.random() < 0.1:
                vs[-1] = spoil(g, vs[-1], t)
            out.append(dict(k="oneof", vs=vs))
    return out


def req_ok(reqs):
    for q in reqs:
        for v in ([q["v"]] if q["k"] == "this" else q.get("vs", [])):
            if not ok_value(v):
                return False
    return True


def gen_C11(g, scale):
    out = []
    for ev in log_events(g, scale):
        for _ in range(2):
            q = requests(g, ev)
            if req_ok(q):
                out.append(("filter", dict(ev=ev, reqs=q)))
    # the hash of every kind of indexed value
    for t in ELEMS + [w for e in (UINT(), STRING, FB(3), BYTES) for w in wraps(e)] + [w2 for e in (STRING, BOOL) for w in wraps(e)[:4] for w2 in wraps(w)[:5]]:
        ev = dict(name=text("H"), inputs=[dict(name=text("p"), kind=UINT(), indexed=False), dict(name=text("t"), kind=t, indexed=True)], anonymous=True)
        v = g.value(t, maxlen=2)
        if v["k"] in ("array",) and not v["ts"]:
            v["ts"] = [g.value(t["t"], maxlen=1)]
        out.append(("filter", dict(ev=ev, reqs=[dict(k="this", v=v), dict(k="any"), dict(k="any")])))
    for k in ("bytes", "string"):
        for n in (0, 1, 31, 32, 33, 64, 135, 136, 137):
            ev = dict(name=text("H"), inputs=[dict(name=text("t"), kind=T(k), indexed=True)], anonymous=True)
            out.append(("filter", dict(ev=ev, reqs=[dict(k="this", v=dict(k=k, b=g.string(n))), dict(k="any"), dict(k="any")])))
    ev = dict(name=text("N"), inputs=[dict(name=text("t"), kind=UINT(), indexed=False)], anonymous=False)
    for i in range(3):
        q = [dict(k="any")] * 3
        q[i] = dict(k="this", v=dict(k="uint", w=num(1)))
        out.append(("filter", dict(ev=ev, reqs=list(q))))
        q[i] = dict(k="oneof", vs=[dict(k="uint", w=num(1))])
        out.append(("filter", dict(ev=ev, reqs=list(q))))
    for f in ("default", "none"):
        out.append(("topic", dict({"from": f, "xs": []})))
    for f in ("some", "one"):
        out.append(("topic", dict({"from": f, "xs": [5]})))
    for n in range(4):
        out.append(("topic", dict({"from": "many", "xs": list(range(10, 10 + n))})))
    return out


# ---- literals ----
def dec_texts():
    m = 1 << 256
    h = 1 << 255
    out = ["", "-", "+", "--5", "-+5", "+5", "+-5", "0", "-0", "00", "-00", "007", "-007", "1", "-1", "9", "10", "-10", "12a", "0x10", "1e3", "1.0", " 1", "1 ", "1_000", "\u0661", "-\u0661", "1-", "5-3", "0-1", "ff", "\u00e9"]
    for x in (255, 256, 65535, 65536, 9999, 10000, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64, 2**64 + 1, 2**127, 2**128 - 1, 2**128, 2**191, 2**192, 2**192 - 1, h - 1, h, h + 1, m - 1, m, m + 1, 10**77, 10**78, 10**78 - 1, 2 * m, 10 * m, h * 3, 10**80, m + h, 10 ** 63, 10 ** 64 - 1):
        out += [str(x), "-" + str(x)]
    out += ["0" * 10 + str(m - 1), "-" + "0" * 70 + str(h), "0" * 64, "0" * 80, "1" * 64, "f" * 64, "F" * 64, "8" + "0" * 63, "-" + "1" * 63, "-" + "f" * 63, "g" * 64, "a" * 63, "a" * 65, "0x" + "0" * 62, "0x" + "0" * 64, "\u00e9" * 32, "12" * 31 + "1\u00e9"]
    return out


def lit(g, v, mode, tight=False):
    """A text that denotes v, if there is one."""
    k = v["k"]
    if k in ("address", "int", "uint"):
        h = bytes(v["w"]).hex()
        if k != "address" and mode == "lenient" and g.r.random() < 0.7:
            n = int(h, 16)
            if k == "int" and n >> 255:
                n -= 1 << 256
            return str(n)
        return h if g.r.random() < 0.7 else h.upper()
    if k == "bool":
        return g.r.choice(["true", "1"] if v["v"] else ["false", "0"])
    if k in ("bytes", "fbytes"):
        return bytes(v["b"]).hex()
    if k == "string":
        return bytes(v["b"]).decode()
    o, c = "()" if k == "tuple" else "[]"
    return o + ",".join(lit(g, x, mode) for x in v["ts"]) + c


def lit_type(g, depth):
    r = g.r
    if depth == 0 or r.random() < 0.3:
        return g.elem()
    c = r.random()
    if c < 0.4:
        return ARR(lit_type(g, depth - 1))
    if c < 0.7:
        return FARR(lit_type(g, depth - 1), r.choice([1, 2, 3]))
    return TUP(*[lit_type(g, depth - 1) for _ in range(r.randint(1, 3))])


def mutate_lit(g, s):
    c = g.r.randint(0, 9)
    if not s:
        return g.r.choice(["[", "]", "\"", ",", " ", "\u00e9", "()", "[]", "0"])
    i = g.r.randint(0, len(s))
    j = g.r.randrange(len(s))
    if c == 0:
        return s[:j] + s[j + 1:]
    if c <= 2:
        return s[:i] + g.r.choice("[](),\"\"0fg-+ \u00e9\u4e2d\U0001F600") + s[i:]
    if c == 3:
        return s[:j] + g.r.choice("[](),\"0fg") + s[j + 1:]
    if c == 4:
        return s + g.r.choice(["]", "[", ",", ")", "(", "x", " ", "\"", "[]", "]x", "\u00e9"])
    if c == 5:
        return g.r.choice(["[", "]", "(", ",", " ", "\"", "0x", "-", "\u00e9"]) + s
    if c == 6:
        k = g.r.randint(j, len(s))
        return s[:j] + "\"" + s[j:k] + "\"" + s[k:]
    if c == 7:
        return "[" + s + "]"
    if c == 8:
        return s.replace(",", ",,", 1) if "," in s else s + ","
    return s[:j]


def mixed(t):
    """An array with a tuple inside or a tuple with an array inside: only refusal is settled there."""
    def has(t, k):
        if t["k"] in ("array", "farray"):
            return k == "list" or has(t["t"], k)
        if t["k"] == "tuple":
            return k == "tuple" or any(has(x, k) for x in t["ts"])
        return False
    return has(t, "list") and has(t, "tuple")


def gen_C12(g, scale):
    out = []

    def ev(t, s, mode=None):
        for m in [mode] if mode else ["strict", "lenient"]:
            out.append(("tok", dict(mode=m, type=t, text=text(s))))

    for s in dec_texts():
        for t in (UINT(), INT(), UINT(8)):
            ev(t, s, "lenient")
        ev(g.r.choice([UINT(), INT()]), s, "strict")
    for s in ["true", "false", "0", "1", "2", "True", "TRUE", "", "yes", "00", "01", "true ", " false", "\"true\"", "t", "-1"]:
        ev(BOOL, s)
    for n in (0, 1, 39, 40, 41, 42, 44):
        ev(ADDRESS, "a" * n)
        ev(ADDRESS, ("0x" + "a" * 42)[:n])
    ev(ADDRESS, "g" * 40)
    ev(ADDRESS, "\u00e9" * 20)
    ev(ADDRESS, "aB" * 20)
    for n in (1, 4, 31, 32):
        for m in (0, 2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2, 64):
            ev(FB(n), "c" * max(0, m))
    for s in ["", "0", "00", "0x", "0x00", "0g", "ABcd", "abc", "\u00e9\u00e9", "zz", " 00", "00 ", "\"00\""]:
        ev(BYTES, s)
        ev(FB(1), s)
    for s in ["", " ", "a", "\"", "\"a\"", "\u00e9", "[a]", "a,b", "\U0001F600", "0x00", "\n", "\\n"]:
        ev(STRING, s)
    L = ["", "[", "]", "[]", "[[]]", "[][]", "[,]", "[a", "a]", "[a]", "[a,b]", "[a,b,]", "[,a]", "[a]b", "b[a]", "[a][b]", "[[a]", "[a]]", "[\"a\"]", "[\"a,b\"]", "[\"]\"]", "[\"[\"]", "[\"a]", "[a\"]", "[\"a\",\"b\"]", "[\"a\"b]", "[a,[b]]", "[[a],[b]]", "[[a,b],[c]]", "[[a],b]", "[ a ]", "[a, b]", "[\u00e9]", "[\u00e9,b]", "[a,\u00e9]", "[\"\u00e9,x\",b]", "[\U0001F600,\U0001F600]", "()", "(a)", "(a,b)", "((a))", "[(a)]", "([a])", "[a)", "(a]", "(\"a,b\")", "(\"a\",b)", "(a,(b))", "((a),(b))", "(a,b", "a,b)", "((a,b)", "(\u00e9,b)", "(a)b", "(a,b)(c)", "(,)", "(a,)", "[\"\"]", "\"[a]\"", "[]]", "[[]", "())", "(()", "[\"", "\"]", "\"", "[\"]", "a", ",", "[a b]", "[]a", "a[]"]
    for s in L:
        for t in (ARR(STRING), FARR(STRING, 1), FARR(STRING, 2), ARR(ARR(STRING)), TUP(STRING), TUP(STRING, STRING), ARR(BYTES), TUP(TUP(STRING), STRING)):
            ev(t, s, g.r.choice(["strict", "lenient"]))
        for t in (ARR(BOOL), TUP(BOOL, BOOL), FARR(BOOL, 2), TUP(TUP(BOOL), TUP(BOOL)), ARR(UINT()), ARR(ARR(BOOL))):
            if g.r.random() < 0.7:
                ev(t, s.replace("a", "1").replace("b", "0").replace("c", "true"), "lenient")
    for t, s in [(FARR(BOOL, 2), "[1]"), (FARR(BOOL, 2), "[1,0]"), (FARR(BOOL, 2), "[1,0,1]"), (FARR(BOOL, 1), "[]"), (ARR(UINT()), "[1,2,3]"), (ARR(INT()), "[-1,2]"), (ARR(ARR(UINT())), "[[1,2],[],[3]]"),
                 (TUP(UINT(), BOOL), "(1)"), (TUP(UINT(), BOOL), "(1,1)"), (TUP(UINT(), BOOL), "(1,1,1)"), (TUP(BOOL, ADDRESS, STRING), "(true," + "1" * 40 + ",hi)"), (FARR(ARR(BOOL), 2), "[[1],[0,1]]"), (FARR(FARR(BOOL, 2), 2), "[[1,0],[0,1]]"), (FARR(FARR(BOOL, 2), 2), "[[1],[0,1]]"), (ARR(STRING), "[1,2,\"a,b\",\"\"]")]:
        ev(t, s)
    ev(ARR(BOOL), "[" + ",".join("1" * 300) + "]", "strict")
    ev(FARR(BOOL, 300), "[" + ",".join("1" * 300) + "]", "strict")
    ev(FARR(BOOL, 256), "[" + ",".join("1" * 300) + "]", "strict")
    for d in (5, 10, 30):
        t = BOOL
        for _ in range(d):
            t = ARR(t)
        ev(t, "[" * d + "1" + "]" * d, "strict")
        ev(t, "[" * d + "1" + "]" * (d - 1), "strict")
        ev(t, "[" * (d - 1) + "1" + "]" * (d - 1), "strict")
    for _ in range(int(450 * scale)):
        t = lit_type(g, g.r.choice([0, 1, 2, 3]))
        v = g.value(t, maxlen=2)
        mode = g.r.choice(["strict", "lenient"])
        s = lit(g, v, mode)
        if len(s) > 700:
            continue
        ev(t, s, mode)
        for _ in range(3):
            ev(t, mutate_lit(g, s), mode)
        if g.r.random() < 0.3:
            ev(lit_type(g, 2), s, mode)
    # whatever an array of tuples or a tuple of arrays does, it must not give another value
    return [(op, a) if not mixed(a["type"]) else ("tokmixed", a) for op, a in out]


def no_empty_bytes(v):
    if v["k"] in ("bytes", "fbytes", "string"):
        return len(v["b"]) > 0
    if v["k"] in ("array", "farray", "tuple"):
        return all(no_empty_bytes(x) for x in v["ts"])
    return True


def readable(t):
    if t["k"] in ("array", "farray"):
        return readable(t["t"])
    return t["k"] in ("address", "bytes", "fbytes", "bool")


def gen_C13(g, scale):
    out = []
    for t in matrix():
        out.append(("show", dict(tok=g.value(t))))
    for i in range(33):
        w = [0] * 32
        if i < 32:
            w[i] = g.r.choice([1, 15, 16, 128, 255])
        for k in ("int", "uint"):
            out.append(("show", dict(tok=dict(k=k, w=w))))
    for _ in range(60):
        out.append(("show", dict(tok=dict(k=g.r.choice(["int", "uint"]), w=g.word()))))
        out.append(("show", dict(tok=dict(k="address", w=g.addr()))))
    for n in (0, 1, 2, 31, 32, 33, 100):
        out.append(("show", dict(tok=dict(k="bytes", b=g.blob(n)))))
        out.append(("show", dict(tok=dict(k="fbytes", b=g.blob(max(1, min(n, 32)))))))
        out.append(("show", dict(tok=dict(k="string", b=g.string(n)))))
    for b in range(0, 256, 5):
        out.append(("show", dict(tok=dict(k="bytes", b=[b, 255 - b, 0]))))
    for n in (0, 1, 2, 10, 60):
        out.append(("show", dict(tok=dict(k="array", ts=[g.value(BOOL) for _ in range(n)]))))
        out.append(("show", dict(tok=dict(k="array", ts=[g.value(TUP(UINT(), STRING)) for _ in range(min(n, 10))]))))
    for _ in range(int(400 * scale)):
        out.append(("show", dict(tok=g.value(g.type(4)))))
    # reading back
    for _ in range(int(500 * scale)):
        t = lit_type(g, 3)
        if not readable(t):
            t = g.r.choice([ADDRESS, BYTES, BOOL, FB(3), FB(32), ARR(ADDRESS), ARR(BYTES), FARR(BOOL, 2), ARR(ARR(FB(2))), FARR(ARR(BOOL), 2), ARR(FARR(ADDRESS, 2))])
        v = g.value(t)
        if no_empty_bytes(v):
            out.append(("retok", dict(type=t, tok=v, mode="strict")))
    return out


# ---- sessions ----
def session_calls(g, c, h, n):
    """Calls on a loaded interface, well-formed and not."""
    out = []
    r = g.r
    for _ in range(n):
        k = r.choice(["s_call", "s_call", "s_call", "s_out", "s_in", "s_sig", "s_evsig", "s_filter", "s_plog", "s_plog", "s_look", "s_dump", "s_ctor", "s_ser"])
        fs, es = c["fns"], c["evs"]
        if k in ("s_call", "s_out", "s_in", "s_sig"):
            if not fs or r.random() < 0.05:
                out.append(("s_sig", dict(h=h, name=text(r.choice(["nope", "f"])), ix=r.randint(1, 3))))
                continue
            f = r.choice(fs)
            same = [x for x in fs if x["name"] == f["name"]]
            ix = [i for i, x in enumerate(same) if x is f][0] + 1
            a = dict(h=h, name=f["name"], ix=ix)
            if k == "s_call":
                ts = [p["kind"] for p in f["inputs"]]
                vs = g.values(ts, maxlen=1)
                if r.random() < 0.25 and vs:
                    i = r.randrange(len(vs))
                    vs[i] = spoil(g, vs[i], ts[i])
                elif r.random() < 0.15:
                    vs = vs + [g.value(UINT())] if r.random() < 0.5 else vs[:-1]
                if not all(map(ok_value, vs)):
                    continue
                a["toks"] = vs
            elif k == "s_sig":
                pass
            else:
                ts = [p["kind"] for p in f["outputs" if k == "s_out" else "inputs"]]
                vs = g.values(ts, maxlen=1)
                d = enc(vs)
                if r.random() < 0.4 and ts:
                    d = hostile(g, ts, vs, 1)[0]
                if len(d) > 1500:
                    continue
                a["data"] = d
            out.append((k, a))
        elif k in ("s_evsig", "s_filter", "s_plog"):
            if not es:
                continue
            e = r.choice(es)
            same = [x for x in es if x["name"] == e["name"]]
            a = dict(h=h, name=e["name"], ix=[i for i, x in enumerate(same) if x is e][0] + 1)
            if k == "s_filter":
                a["reqs"] = requests(g, e)
                if not req_ok(a["reqs"]):
                    continue
            elif k == "s_plog":
                ts, d = r.choice(hostile_logs(g, e, 2))
                if len(d) > 1500:
                    continue
                a["topics"], a["data"] = ts, d
            out.append((k, a))
        elif k == "s_look":
            out.append((k, dict(h=h, name=r.choice(lookup_names(g, c)))))
        elif k == "s_ctor":
            if c["ctor"]:
                ts = [p["kind"] for p in c["ctor"][-1]["inputs"]]
                vs = g.values(ts, maxlen=1)
                if r.random() < 0.3:
                    vs = vs[:-1] if vs else [g.value(BOOL)]
            else:
                vs = []
            out.append((k, dict(h=h, code=g.blob(r.choice([0, 3, 40])), toks=vs)))
        elif r.random() < 0.4:
            out.append((k, dict(h=h)))
    return out


def gen_C16(g, scale):
    out = []
    r = g.r
    for s in range(int(14 * scale)):
        gid = "s%d" % s
        ifs = {}

        def put(op, a):
            out.append((gid, op, a))

        # two interfaces that share names, and some more
        base = 10 * s
        pool = []
        for k in range(3):
            c = gen_iface(g, 1, 5, 3, overloads=0.8)
            if not c["fns"]:
                c["fns"] = [dict(name=text("f"), inputs=[gen_param(g, 1)], outputs=[gen_param(g, 1)], constant=False, mutability=text("view"))]
            doc = Docs(g).doc(c)
            # the document order of overloads is what counts
            pool.append((c, doc))
        c0, d0 = pool[0]
        # the same names with other types
        import copy as cp
        c1 = cp.deepcopy(c0)
        for f in c1["fns"]:
            for p in f["inputs"] + f["outputs"]:
                p["kind"] = g.type(1)
        for e in c1["evs"]:
            for p in e["inputs"]:
                p["kind"] = g.type(1) if not p["indexed"] else g.elem()
        pool.append((c1, None))
        order = []
        for k, (c, doc) in enumerate(pool):
            dd = Docs(g, plain=True).doc(c)
            put("s_load", dict(h=base + k, doc=dd, style=0))
            ifs[base + k] = c
            order.append(base + k)
        for step in range(4):
            for h in r.sample(order, len(order)):
                calls = session_calls(g, ifs[h], h, 5)
                for op, a in calls:
                    put(op, a)
                    if r.random() < 0.2:
                        put(op, a)
                for op, a in calls[:2]:
                    # the same call on the interface with the same names
                    for h2 in (base, base + 3):
                        if h2 != h and h in (base, base + 3) and op in ("s_call", "s_out", "s_in", "s_plog", "s_filter"):
                            put(op, dict(a, h=h2))
            if step == 1:
                put("s_clone", dict(h=base, g=base + 5))
                ifs[base + 5] = ifs[base]
                order.append(base + 5)
            if step == 2:
                bad = damage(g, Docs(g, plain=True).doc(ifs[base]))
                # a load that may fail: whatever it replies, it must not touch the others
                put("load", dict(doc=bad, style=0, via="reader", names=[]))
                put("s_same", dict(h=base, g=base + 5))
                put("s_same", dict(h=base, g=base + 1))
        lanes = []
        for t in range(8):
            lane = []
            for h in order:
                for op, a in session_calls(g, ifs[h], h, 3):
                    lane.append(dict(id=0, op=op, args=a, g=gid))
            r.shuffle(lane)
            lanes.append(lane)
        out.append((gid, "par", dict(lanes=lanes, rounds=40)))
        for h in order:
            put("s_dump", dict(h=h))
        for h in order:
            put("s_drop", dict(h=h))
    # free functions, in a history of their own: the same arguments again after everything else
    once = []
    for _ in range(int(40 * scale)):
        ts = g.types(2, 1, 3)
        vs = g.values(ts, maxlen=1)
        once.append(("encode", dict(toks=vs)))
        once.append(("decode", dict(types=ts, data=hostile(g, ts, vs, 1)[0][:1500], via="plain")))
        once.append(("decode", dict(types=ts, data=enc(vs), via="fn_out")))
        t = lit_type(g, 2)
        if not mixed(t):
            s = lit(g, g.value(t, maxlen=1), "lenient")
            once.append(("tok", dict(mode="lenient", type=t, text=text(s)[:400])))
            once.append(("tok", dict(mode="strict", type=t, text=text(mutate_lit(g, s))[:400])))
        once.append(("read", dict(text=text(mutate_text(g, type_name(ts[0]))), via="reader")))
        once.append(("read", dict(text=text(type_name(ts[0])), via="reader")))
        once.append(("evsig", dict(ev=dict(name=text("f"), inputs=[dict(name=text("x"), kind=t, indexed=False) for t in ts], anonymous=False))))
        once.append(("fnsig", dict(name=text("f"), ins=ts, outs=[])))
    again = list(once)
    r.shuffle(again)
    out += once + again[: len(again) // 2]
    lanes = [[dict(id=0, op=op, args=a) for op, a in r.sample(once, min(len(once), 40))] for _ in range(8)]
    out.append(("free", "par", dict(lanes=lanes, rounds=30)))
    return out


def around(g):
    """Text before and after a document: blanks leave it one, anything else does not."""
    blanks = [b"", b" ", b"\n", b"\r\n", b"\t \n", b" " * 5000]
    junk = [b"[", b"]", b",", b"{", b"}", b"x", b"0", b"null", b"[]", b"{}", b'"', b"//", b"/* */", b"#", b";", b"\0", b"\xff", b"\x0b", b"\x0c", b"\xc2\xa0", b"\xe2\x80\xa8", b"---"]
    junk += [x.encode() for x in g.strs if x.strip(" \t\r\n")][:40]
    return blanks + [x for x in junk if x not in (b"",)], blanks + junk + [b" " + x for x in junk] + [b"\n" + x + b"\n" for x in junk]


def nearly_hex(g):
    """Ways to spoil a hex text."""
    out = [lambda h, a=a, b=b: a + h + b for a, b in (("", " "), (" ", ""), ("", "\n"), ("\t", ""), ("\n", "\n"), ("0x", ""), ("0X", ""), ("x", ""), ("#", ""), ("", "h"), ("", "\r\n"), ("\"", "\""), ("'", "'"), ("\u00a0", ""), ("\ufeff", ""),
                                                      ("+", ""), ("", "g"), ("", "="), ("\\x", ""), ("0x0x", ""), ("", "0"), ("0", ""), ("", ","), ("", ";"), ("h'", "'"), ("0x ", ""), ("hex", ""))]
    mid = [a for a in g.strs if a and "\0" not in a and len(a) < 12][:20]
    out += [lambda h, c=c, k=k: h[:k * 2] + c + h[k * 2:] for k in (1, 2, 16) for c in mid]
    out += [lambda h, c=c: c.join(h[i:i + 2] for i in range(0, len(h), 2)) for c in mid + [" ", ":", "_", "-"]]
    out += [lambda h, c=c: h[:2] + c + h[2:] for c in (" ", "_", ":", "-", "\n", "\t", ",", "0x", "\u200b", ".")]
    out += [lambda h, c=c: " ".join(h[i:i + c] for i in range(0, len(h), c)) for c in (2, 4, 8, 64)]
    out += [lambda h: h[:-1], lambda h: h[1:], lambda h: h[:-2] + "0o", lambda h: "\uff10" + h[1:], lambda h: h.replace("0", "O", 1), lambda h: h.upper(), lambda h: h[:1].upper() + h[1:], lambda h: h.title(), lambda h: h[::-1]]
    return out + [lambda h, a=a: a + h for a in g.strs if a and "\0" not in a and len(a) < 12][:20] + [lambda h, a=a: h + a for a in g.strs if a and "\0" not in a and len(a) < 12][:20]
