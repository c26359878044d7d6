"""C15: command lines of the real tool, recorded as events."""
import os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from abigen import *
from gens import *
import hints
from vlib import *


def build_cli():
    ok, out = cargo(os.path.join(REPO, "cli/Cargo.toml"), "cli")
    if not ok:
        raise ToolError("the command line tool does not build:\n" + out[-6000:])
    return os.path.join(BUILD, "cli/debug/ethabi")


def untext(cs):
    return "".join(map(chr, cs))


def json_text(d):
    j = d["j"]
    if j == "null":
        return "null"
    if j == "bool":
        return "true" if d["b"] else "false"
    if j == "num":
        return untext(d["n"])
    if j == "str":
        return json.dumps(untext(d["t"]), ensure_ascii=False)
    if j == "raw":
        return untext(d["t"])
    if j == "arr":
        return "[" + ",".join(map(json_text, d["a"])) + "]"
    return "{" + ", ".join(json.dumps(untext(k), ensure_ascii=False) + ": " + json_text(v) for k, v in d["o"]) + "}"


def sig(name, ps, sep=","):
    return untext(name) + "(" + sep.join(type_name(p["kind"]) for p in ps) + ")"


def printed(f):
    s = sig(f["name"], f["inputs"])
    return s + (":(" + ",".join(type_name(p["kind"]) for p in f["outputs"]) + ")" if f["outputs"] else "")


class Cli:
    def __init__(self, g, scale, work):
        self.g, self.r, self.scale, self.work = g, g.r, scale, work
        self.events, self.argv = [], []

    def add(self, op, args, argv):
        if any("\0" in x for x in argv):
            return
        self.events.append(dict(id=len(self.events), op=op, args=args))
        self.argv.append(argv)

    def file(self, doc):
        if doc is None:
            return os.path.join(self.work, "missing.abi")
        p = os.path.join(self.work, "f%d.abi" % len(self.events))
        with open(p, "w") as f:
            f.write(json_text(doc))
        return p

    def mode(self):
        m = self.r.choice(["strict", "lenient"])
        return m, ([self.r.choice(["-l", "--lenient"])] if m == "lenient" else [])

    def texts(self, ts, mode):
        r = self.r
        out = []
        for t in ts:
            s = lit(self.g, self.g.value(t, maxlen=2), mode)
            if r.random() < 0.08:
                s = mutate_lit(self.g, s)
            out.append(s)
        if out and r.random() < 0.06:
            out.pop(r.randrange(len(out)))
        elif r.random() < 0.08:
            out.append(r.choice(["0", "", "true", "-1", out[0] if out else "1"]))
        return out

    def plain_type(self, depth=2):
        """A type whose literals are settled."""
        while True:
            t = lit_type(self.g, self.r.randint(0, depth))
            if not mixed(t):
                return t

    def mixin(self, opts, pos):
        """Options before, after or among the positional arguments."""
        r = self.r
        c = r.random()
        if c < 0.4:
            return pos + [x for o in opts for x in o]
        if c < 0.7:
            return [x for o in opts for x in o] + pos
        out, p = [], list(pos)
        for o in opts:
            while p and r.random() < 0.4:
                out.append(p.pop(0))
            out += o
        return out + p

    # -- encode params
    def encparams(self, ts=None, texts=None, mode=None):
        r = self.r
        if ts is None:
            ts = [self.plain_type() for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
        m, flag = mode if mode else self.mode()
        ss = texts if texts is not None else [x for x in self.texts(ts, m)]
        n = min(len(ts), len(ss))
        names = [type_name(t) for t in ts[:n]]
        for i in range(n):
            if texts is None and r.random() < 0.05:
                names[i] = r.choice(["uint256[", "", "foo", "bool]", "(uint256", "uint256)", "Uint256", "bytes_", "[]", "uint256[x]", "boolean"])
            elif r.random() < 0.1:
                names[i] = names[i].replace("uint256", "uint").replace("int256", "int")
        opts = [["-v", a, b] for a, b in zip(names, ss)]
        if flag:
            opts.insert(r.randint(0, len(opts)), flag)
        self.add("cli_encparams", dict(types=[text(x) for x in names], texts=[text(x) for x in ss[:n]], mode=m),
                 ["encode", "params"] + [x for o in opts for x in o])

    def iface(self):
        """An interface whose literals are settled."""
        g, r = self.g, self.r
        c = gen_iface(g, 1, nf=5, ne=4, overloads=0.6)
        for f in c["fns"]:
            for p in f["inputs"]:
                if mixed(p["kind"]):
                    p["kind"] = self.plain_type(1)
        if c["fns"] and r.random() < 0.5:
            # overloads that differ in a place of their own
            f = r.choice(c["fns"])
            k = r.randint(0, 3)
            h = dict(f, inputs=[dict(p) for p in f["inputs"]], outputs=[dict(p) for p in f["outputs"]])
            if k == 0:
                h["inputs"] = h["inputs"][:-1]
            elif k == 1:
                h["inputs"] = h["inputs"] + [dict(name=text("z"), kind=BOOL, internal=[])]
            elif k == 2:
                h["outputs"] = [dict(name=text("z"), kind=r.choice([BOOL, STRING, UINT(8)]), internal=[])]
            else:
                h["inputs"] = h["inputs"][::-1]
            c["fns"].append(h)
        if c["evs"] and r.random() < 0.5:
            e = r.choice(c["evs"])
            c["evs"].append(dict(e, inputs=[dict(p) for p in e["inputs"]][::-1] if r.random() < 0.5 else [dict(p) for p in e["inputs"]] + [dict(name=text("z"), kind=BOOL, indexed=False)]))
        return c

    def source(self, c):
        """The document in the file, as given to the specification, and its path."""
        r = self.r
        if r.random() < 0.03:
            return [], self.file(None)
        d = Docs(self.g, plain=r.random() < 0.6).doc(c)
        if r.random() < 0.06:
            d = damage(self.g, d)
        return [d], self.file(d)

    def wanted(self, name, full, other):
        r = self.r
        c = r.random()
        if c < 0.4:
            return untext(name)
        if c < 0.8:
            return full
        return r.choice([full + " ", full + "x", full[:-1], other, untext(name) + "()", untext(name) + "(", "nope", "nope(bool)", untext(name).upper(), full.replace(",", "", 1)])

    def functions(self):
        r = self.r
        c = self.iface()
        for f in c["fns"]:
            doc, path = self.source(c)
            want = self.wanted(f["name"], printed(f), sig(f["name"], f["inputs"]))
            if "-" == want[:1]:
                continue
            m, flag = self.mode()
            ss = self.texts([p["kind"] for p in f["inputs"]], m)
            opts = [["-p", s] if r.random() < 0.8 or not s or s[0] == "=" or "\u007f" < s[0] else ["-p=" + s] for s in ss]
            if flag:
                opts.insert(r.randint(0, len(opts)), flag)
            self.add("cli_encfn", dict(file=doc, want=text(want), texts=[text(x) for x in ss], mode=m),
                     ["encode", "function"] + self.mixin(opts, [path, want]))
            doc, path = self.source(c)
            want = self.wanted(f["name"], printed(f), sig(f["name"], f["inputs"]))
            self.add("cli_decfn", dict(file=doc, want=text(want), data=text(self.data([p["kind"] for p in f["outputs"]]))),
                     ["decode", "function", path, want, untext(self.events_data)])
        for e in c["evs"]:
            doc, path = self.source(c)
            full = sig(e["name"], e["inputs"], r.choice([",", ", ", " , "]))
            want = self.wanted(e["name"], full, untext(e["name"]) + "(uint256)")
            if " " in want.split("(")[0]:
                continue
            logs = list(hostile_logs(self.g, e, 2))
            ts, d = logs[0] if r.random() < 0.7 else r.choice(logs)
            if len(d) > 2000:
                continue
            hs = [self.hexes(bytes(t)) for t in ts]
            hs = [("0x" + h) if r.random() < 0.3 else h for h in hs]
            if hs and r.random() < 0.05:
                i = r.randrange(len(hs))
                hs[i] = r.choice([hs[i][:-1], hs[i] + "0", hs[i][:-2], "", "0x", hs[i][:-1] + "g", "0X" + hs[i], "0x0x" + hs[i]])
            ds = self.hexes(bytes(d))
            opts = [["-l", h] for h in hs]
            self.add("cli_declog", dict(file=doc, want=text(want), topics=[text(h) for h in hs], data=text(ds)),
                     ["decode", "log"] + self.mixin(opts, [path, want, ds]))

    def hexes(self, b):
        h = b.hex()
        return h if self.r.random() < 0.85 else h.upper()

    def data(self, ts):
        r = self.r
        b = bytearray(enc([self.g.value(t, maxlen=2) for t in ts]))
        c = r.random()
        if c < 0.12 and b:
            b[r.randrange(len(b))] = r.choice([0, 1, 2, 32, 255])
        elif c < 0.18:
            del b[r.randint(0, len(b)):]
        elif c < 0.25:
            b += bytes(r.randint(1, 40))
        h = self.hexes(bytes(b))
        c = r.random()
        if c < 0.03:
            h = "0x" + h
        elif c < 0.06 and h:
            h = h[:-1]
        elif c < 0.08:
            h = h + r.choice(["g", " ", "zz", "\u00e9"])
        self.events_data = text(h)
        return h

    def decparams(self, ts=None):
        r = self.r
        if ts is None:
            ts = [self.g.type(2) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        names = [type_name(t) for t in ts]
        for i in range(len(names)):
            if r.random() < 0.03:
                names[i] = r.choice(["uint256[", "", "foo", "bool]", "(uint256", "Uint256"])
            elif r.random() < 0.1:
                names[i] = names[i].replace("uint256", "uint").replace("int256", "int")
        h = self.data(ts)
        self.add("cli_decparams", dict(types=[text(x) for x in names], data=text(h)),
                 ["decode", "params"] + self.mixin([["-t", x] for x in names], [h]))

    def usage(self):
        c = dict(ctor=[], fns=[dict(name=text("f"), inputs=[dict(name=text("a"), kind=UINT(), internal=[])], outputs=[], constant=False, mutability=text("view"))], evs=[], fallback=False, receive=False)
        p = self.file(Docs(self.g, plain=True).doc(c))
        w = "%064x" % 7
        for argv in ([], ["encode"], ["decode"], ["encode", "function"], ["encode", "function", p], ["encode", "params", "-v", "bool"], ["encode", "params", "-v", "bool", "1", "-v", "bool"],
                     ["encode", "params", "bool", "1"], ["decode", "params", "-t", "uint256"], ["decode", "function", p, "f"], ["decode", "log", p, "E"], ["nope"], ["encode", "nope"],
                     ["encode", "function", p, "f", w], ["encode", "function", p, "f", "-p", w, "x"], ["decode", "params", "-t", "bool", w, w], ["decode", "params", "--lenient", w],
                     ["decode", "function", p, "f", w, w], ["encode", "function", p, "f", "-p"], ["decode", "params", "-t"], ["encode", "function", "-v", "uint256", w, p, "f"]):
            self.add("cli_usage", dict(argv=[text(x) for x in argv]), argv)

    def generate(self):
        r, s = self.r, self.scale
        self.usage()
        for t in [x for x in matrix(False) if not mixed(x)]:
            self.encparams([t, BOOL])
            self.decparams([UINT(), t])
        for n in ("0", "1", "-1", "-0", "5", "-", "--5", "", str(2**255 - 1), str(2**255), "-" + str(2**255), "-" + str(2**255 + 1), str(2**256 - 1), str(2**256), "0" * 64, "-l", "f" * 64, "%064x" % 5, "5" * 64):
            for t in (INT(), UINT(), INT(8), UINT(8)):
                for mode in (("strict", []), ("lenient", ["-l"])):
                    self.encparams([t], [n], mode)
        for x in ("", "-", "--", "-v", "-l", "--lenient", "a b", " ", "[", "\"", "\u00e9\u4e2d", "0x", "a\nb", "=", "=a", "-v=1", "'"):
            self.encparams([STRING, BOOL], [x, "1"])
            self.encparams([BYTES], [x])
        for _ in range(int(80 * s)):
            self.encparams()
            self.decparams()
        for _ in range(int(70 * s)):
            self.functions()


    # -- systematic
    def plain_fn(self, name, ins, outs=()):
        mk = lambda ts, l: [dict(name=text(l + str(i)), kind=t, internal=[]) for i, t in enumerate(ts)]
        return dict(name=text(name), inputs=mk(ins, "a"), outputs=mk(outs, "r"), constant=False, mutability=text("view"))

    def plain_ev(self, name, ts, ix, anonymous=False):
        return dict(name=text(name), inputs=[dict(name=text("p%d" % i), kind=t, indexed=x) for i, (t, x) in enumerate(zip(ts, ix))], anonymous=anonymous)

    def doc(self, fns, evs=()):
        d = Docs(self.g, plain=True).doc(dict(ctor=[], fns=list(fns), evs=list(evs), fallback=False, receive=False))
        return [d], self.file(d)

    def encfn(self, doc, path, want, ss, mode, flag):
        self.add("cli_encfn", dict(file=doc, want=text(want), texts=[text(x) for x in ss], mode=mode),
                 ["encode", "function", path, want] + [x for t in ss for x in ("-p", t)] + flag)

    def decfn(self, doc, path, want, h):
        self.add("cli_decfn", dict(file=doc, want=text(want), data=text(h)), ["decode", "function", path, want, h])

    def declog(self, doc, path, want, hs, ds):
        self.add("cli_declog", dict(file=doc, want=text(want), topics=[text(h) for h in hs], data=text(ds)),
                 ["decode", "log", path, want] + [x for t in hs for x in ("-l", t)] + [ds])

    def sweep(self):
        g, r = self.g, self.r
        modes = (("strict", []), ("lenient", ["--lenient"]))
        # numbers of every number of digits, in both modes, at the top and inside a list
        for k in range(1, 82):
            for t in (UINT(), INT()):
                for mode in modes:
                    self.encparams([t], ["1" + "".join(r.choice("0123456789") for _ in range(k - 1))], mode)
                    self.encparams([t], ["9" * k], mode)
                    d = str(r.randint(1, 9)) + "".join(r.choice("0123456789") for _ in range(k - 1))
                    self.encparams([t], [r.choice(["", "", "-"]) + d], mode)
                    if k in (1, 2, 20, 40, 63, 64, 65, 77, 78):
                        self.encparams([ARR(t)], ["[%s,1,%s]" % (d, d)], mode)
                        self.encparams([BOOL, t], ["1", "0" + d], mode)
                        doc, path = self.doc([self.plain_fn("f", [t])])
                        self.encfn(doc, path, "f", [d], *mode)
                        self.encfn(doc, path, "f(%s)" % type_name(t), ["-" + d], *mode)
        for n in sorted({x + y for k in (4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 160, 248, 255, 256) for x in (1 << k,) for y in (-1, 0, 1)} | {x + y for x in g.ints for y in (-1, 0, 1)}):
            for t in (UINT(), INT(), UINT(8), INT(64)):
                for mode in modes:
                    self.encparams([t], [str(n)], mode)
                    self.encparams([t], [str(-n)], mode)
                    self.encparams([t], ["%064x" % (n % (1 << 256))], mode)
        # strings and byte strings
        for n in g.sizes([0, 1, 31, 32, 33, 64, 200, 300], 3000):
            self.encparams([STRING, BYTES, ARR(STRING)], ["s" * n, "ab" * n, "[%s]" % ("x" * n)], r.choice(modes))
            h = bytes(enc([dict(k="string", b=[115] * n), dict(k="bytes", b=[i % 256 for i in range(n)])])).hex()
            self.add("cli_decparams", dict(types=[text("string"), text("bytes")], data=text(h)), ["decode", "params", "-t", "string", "-t", "bytes", h])
        for x in ["", " ", "a b", "a\nb", "a\tb", "\u00e9", "\U0001f600", "x\n", "\n", "a,b", "[a]", "\"", "\\", "%", "{}", "%s", "0x", "null", "true"] + [y for y in g.strs if "\0" not in y]:
            b = list(x.encode())
            h = bytes(enc([dict(k="string", b=b), dict(k="array", ts=[dict(k="string", b=b)] * 2)])).hex()
            self.add("cli_decparams", dict(types=[text("string"), text("string[]")], data=text(h)), ["decode", "params", h, "-t", "string", "-t", "string[]"])
            for mode in modes:
                self.encparams([STRING], [x], mode)
                self.encparams([TUP(STRING, BOOL)], ["(%s,1)" % x], mode)
            ev = self.plain_ev("E", [STRING, UINT()], [False, True])
            ev["inputs"][0]["name"] = text(x)
            doc, path = self.doc([], [ev])
            ts, d = emit(g, ev)[1:]
            self.declog(doc, path, "E", [bytes(t).hex() for t in ts], bytes(d).hex())
        # how many
        for n in g.sizes([0, 1, 2, 3, 5, 8, 16, 17, 33], 90):
            for mode in modes:
                self.encparams([BOOL] * n, [str(i % 2) for i in range(n)], mode)
            doc, path = self.doc([self.plain_fn("f", [UINT()] * n, [BOOL] * n)])
            for m in {n, n + 1, max(0, n - 1), 0}:
                self.encfn(doc, path, "f", ["%064x" % i for i in range(m)], "strict", [])
                self.encfn(doc, path, "f", [str(i) for i in range(m)], "lenient", ["-l"])
            h = "".join("%064x" % (i % 2) for i in range(n))
            self.decfn(doc, path, "f", h)
            self.decfn(doc, path, "f", h + "00" * 32)
            self.decfn(doc, path, "f", h[:-2])
            self.add("cli_decparams", dict(types=[text("bool")] * n, data=text(h)), ["decode", "params", h] + ["-t", "bool"] * n)
            # that many overloads, each by its signature
            k = min(n, 40)
            fns = [self.plain_fn("g", [BOOL] * i + [UINT()], [UINT(8)] * (i % 2)) for i in range(k)]
            evs = [self.plain_ev("G", [BOOL] * i + [UINT()], [False] * (i + 1)) for i in range(k)]
            doc, path = self.doc(fns, evs)
            self.encfn(doc, path, "g", ["%064x" % 5], "strict", [])
            for i, f in enumerate(fns):
                if i < 4 or i > k - 3:
                    self.encfn(doc, path, printed(f), ["1"] * i + ["%064x" % 5], "strict", [])
                    self.encfn(doc, path, sig(f["name"], f["inputs"]), ["1"] * i + ["%064x" % 5], "strict", [])
                    self.decfn(doc, path, printed(f), "%064x" % 7)
                    ts, d = emit(g, evs[i])[1:]
                    self.declog(doc, path, sig(evs[i]["name"], evs[i]["inputs"]), [bytes(t).hex() for t in ts], bytes(d).hex())
                    self.declog(doc, path, "G", [bytes(t).hex() for t in ts], bytes(d).hex())
        # overloads that differ in one thing only, names that begin alike, functions and events of one name
        alike = [[UINT()], [UINT(8)], [INT()], [ARR(UINT())], [FARR(UINT(), 2)], [FARR(UINT(), 3)], [TUP(UINT())], [TUP(UINT(), UINT())], [UINT(), UINT()], [TUP(UINT()), UINT()], [FB(32)], [FB(31)], [BYTES], [STRING], [ADDRESS], [BOOL], []]
        fns = [self.plain_fn("h", ts, ts[:1]) for ts in alike] + [self.plain_fn("h", [UINT()], os_) for os_ in ([], [BOOL], [UINT(), UINT()])] + [self.plain_fn(n, [UINT()], [UINT()]) for n in ("hh", "H", "h_", "E")]
        evs = [self.plain_ev("E", ts, [False] * len(ts)) for ts in alike] + [self.plain_ev(n, [UINT()], [False]) for n in ("EE", "e", "h")] + [self.plain_ev("E", [UINT(), BOOL, STRING], [True, False, True], True)]
        doc, path = self.doc(fns, evs)
        one = lambda ts, m: [lit(g, g.value(t, maxlen=2), m) for t in ts]
        for f in fns:
            ins = [p["kind"] for p in f["inputs"]]
            for want in (printed(f), sig(f["name"], f["inputs"]), untext(f["name"])):
                for mode in modes:
                    self.encfn(doc, path, want, one(ins, mode[0]), *mode)
                self.decfn(doc, path, want, bytes(enc([g.value(p["kind"], maxlen=2) for p in f["outputs"]])).hex())
        for e in evs:
            ts, d = emit(g, e)[1:]
            hs = [bytes(t).hex() for t in ts]
            full = sig(e["name"], e["inputs"])
            for want in (full, full.replace(",", ", "), full.replace("(", "( "), full + " ", full[:-1] + " )", untext(e["name"]), full.replace("256", "")):
                self.declog(doc, path, want, hs, bytes(d).hex())
            self.declog(doc, path, full, hs[::-1], bytes(d).hex())
            self.declog(doc, path, full, hs[:-1], bytes(d).hex())
            self.declog(doc, path, full, hs + [hs[0] if hs else "00" * 32], bytes(d).hex())
            self.declog(doc, path, full, ["0x" + h.upper() for h in hs], bytes(d).hex().upper())
            self.declog(doc, path, full, hs, "0x" + bytes(d).hex())
            self.declog(doc, path, full, hs, bytes(d).hex()[:-1])
        # hex that is not quite hex
        doc, path = self.doc([self.plain_fn("f", [UINT(), BYTES, FB(4), ADDRESS], [UINT(), BYTES])], [self.plain_ev("E", [UINT(), BYTES], [True, False])])
        ts, d = emit(g, self.plain_ev("E", [UINT(), BYTES], [True, False]))[1:]
        hs, ds = [bytes(t).hex() for t in ts], bytes(d).hex()
        h = bytes(enc([dict(k="uint", w=[0] * 31 + [0xab]), dict(k="bytes", b=[0xcd] * 3)])).hex()
        ss = ["%064x" % 0xab, "cdcd", "abcdef01", "0f" * 20]
        for odd in nearly_hex(g):
            self.decfn(doc, path, "f", odd(h))
            self.declog(doc, path, "E", hs, odd(ds))
            for i in range(len(hs)):
                x = odd(hs[i])
                if not set(x) & set(" \t\r\n"):       # white space in a topic is skipped by the number library: left open
                    self.declog(doc, path, "E", hs[:i] + [x] + hs[i + 1:], ds)
                    self.declog(doc, path, "E", hs[:i] + [x] + hs[i:], ds)
            x = odd(h)
            self.add("cli_decparams", dict(types=[text("uint256"), text("bytes")], data=text(x)), ["decode", "params", "-t", "uint256", "-t", "bytes", x])
            for mode in modes:
                self.encfn(doc, path, "f", ss, *mode)
                for i in range(len(ss)):
                    self.encfn(doc, path, "f", ss[:i] + [odd(ss[i])] + ss[i + 1:], *mode)
        # a file that is not quite a document
        doc, path = self.doc([self.plain_fn("f", [BOOL], [BOOL])], [self.plain_ev("E", [BOOL], [False], True)])
        whole = open(path, "rb").read().strip()
        pres, posts = around(g)
        for i, x in enumerate([(p, b"") for p in pres] + [(b"", p) for p in posts] + [None]):
            q = os.path.join(self.work, "around%d.abi" % i)
            with open(q, "wb") as f:
                f.write(x[0] + whole + x[1] if x else whole[:-1])
            d = doc if x and not (x[0] + x[1]).strip(b" \t\r\n") else []
            self.encfn(d, q, "f", ["1"], "strict", [])
            self.decfn(d, q, "f", "%064x" % 1)
            self.declog(d, q, "E", [], "%064x" % 1)
        # which names the sources know about
        for x in [y for y in g.strs if y and "\0" not in y and y[0] != "-" and "(" not in y and len(y) < 60]:
            doc, path = self.doc([self.plain_fn(x, [UINT()], [UINT()])], [self.plain_ev(x, [UINT()], [False])])
            self.encfn(doc, path, x, ["%064x" % 1], "strict", [])
            self.encfn(doc, path, x + "(uint256):(uint256)", ["1"], "lenient", ["-l"])
            self.decfn(doc, path, x, "%064x" % 1)
        # every type, every mode, through a function
        for t in [x for x in matrix(False) if not mixed(x)]:
            f = self.plain_fn("f", [t], [t])
            ev = self.plain_ev("E", [t, t], [False, True])
            doc, path = self.doc([f], [ev])
            for mode in modes:
                self.encfn(doc, path, r.choice(["f", printed(f)]), [lit(g, g.value(t, maxlen=2), mode[0])], *mode)
                self.encfn(doc, path, "f", [mutate_lit(g, lit(g, g.value(t, maxlen=2), mode[0]))], *mode)
            self.decfn(doc, path, r.choice(["f", printed(f)]), bytes(enc([g.value(t, maxlen=2)])).hex())
            ts, d = emit(g, ev)[1:]
            self.declog(doc, path, "E", [bytes(x).hex() for x in ts], bytes(d).hex())


def execute_cli(exe, c):
    pre = ["prlimit", "--as=%d" % (8 << 30), "--core=0"] if shutil.which("prlimit") else []
    e = env()

    def one(i):
        try:
            p = subprocess.run(pre + [exe] + c.argv[i], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, cwd=c.work)
        except subprocess.TimeoutExpired:
            return dict(s="timeout")
        if p.returncode == 0:
            return dict(s="ok", v=list(p.stdout))
        if p.returncode < 0:
            return dict(s="abort")
        if p.stdout:
            return dict(s="printed", v=list(p.stdout))
        return dict(s="err")
    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, range(len(c.argv))))
    return [dict(e, res=r, argv=a) for e, r, a in zip(c.events, res, c.argv)]


def run(run, scale):
    exe = build_cli()
    ints, strs = hints.novel(REPO)
    c = Cli(Gen(run.seed, ints, strs), scale, run.work)
    c.generate()
    c.sweep()
    if ints or strs:
        c.g = HintGen(run.seed + 2000003, ints, strs)
        c.r = c.g.r
        c.generate()
    run.trace(c.events, execute_cli(exe, c), "run")
    paths = {}

    def recorded(exe, events, work, tag):
        """The command lines of a model; @ is the file it speaks of."""
        m = Cli(c.g, scale, work)
        for e in events:
            words = [untext(w) for w in e["args"]["argv"]]
            docs = e["args"].get("file") or []
            key = dumps(docs)
            if docs and key not in paths:
                paths[key] = os.path.join(work, "model-%d.abi" % len(paths))
                with open(paths[key], "w") as f:
                    f.write(json_text(docs[0]))
            m.events.append(e)
            m.argv.append(words[0].split(" ") + [paths[key] if w == "@" and docs else w for w in words[1:]])
        return execute_cli(exe, m)
    import models
    for x in run.conf.get("models", ()):
        models.run(run, exe, x, recorded)
