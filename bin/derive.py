"""C14: modules generated by the derive macro, executed next to the declarations they were generated from."""
import json, os, re
from abigen import *
from gens import *
import hints
import models
from cli import json_text, untext
from vlib import *

# ABI names and the identifiers generated for them
FN = [("transfer", "transfer"), ("balanceOf", "balance_of"), ("set_x", "set_x"), ("getHTTPServer", "get_http_server"), ("f", "f"), ("F2", "f2"), ("allowance", "allowance"), ("_hidden", "hidden"), ("totalSupply", "total_supply"), ("a1b2", "a1b2")]
EV = [("Transfer", "transfer"), ("ApprovalForAll", "approval_for_all"), ("E", "e"), ("LogNote2", "log_note2"), ("Deposit", "deposit"), ("RoleGranted", "role_granted"), ("X1", "x1")]
PN = [("to", "to"), ("_from", "from"), ("value", "value"), ("tokenId", "token_id"), ("x", "x"), ("HTTPCode", "http_code"), ("a_b", "a_b"), ("self", "_self"), ("v2", "v2"), ("__y", "y"), ("inner", "inner"), ("out", "out"), ("v", "v"), ("i", "i"), ("e", "e"), ("tokens", "tokens"), ("raw", "raw"), ("result", "result"), ("iter", "iter"), ("output", "output"), ("log", "log")]


def rust(t):
    k = t["k"]
    if k in ("int", "uint"):
        return "ethabi::Uint"
    if k == "array":
        return "Vec<%s>" % rust(t["t"])
    if k == "farray":
        return "[%s; %d]" % (rust(t["t"]), t["n"])
    if k == "fbytes":
        return "ethabi::Hash" if t["n"] == 32 else "[u8; %d]" % t["n"]
    return dict(address="ethabi::Address", bool="bool", string="String", bytes="Vec<u8>")[k]


def has_farray(t):
    return t["k"] == "farray" or t["k"] == "array" and has_farray(t["t"])


def in_ok(t):
    """Types the macro supports for arguments."""
    if t["k"] == "array":
        return not has_farray(t["t"])
    if t["k"] == "farray":
        return t["t"]["k"] not in ("array", "farray") and t["t"]["k"] != "fbytes"
    return True


def ix_ok(t):
    return not has_farray(t)


BASE = [ADDRESS, BYTES, BOOL, STRING, INT(), UINT(), UINT(8), INT(64), FB(1), FB(20), FB(31), FB(32)]
CORE = BASE + [ARR(t) for t in BASE] + [FARR(t, 2) for t in (ADDRESS, BYTES, BOOL, STRING, INT(), UINT(16), FB(32), FB(4))] + [FARR(UINT(), 1), FARR(BOOL, 5)] \
    + [ARR(ARR(UINT())), ARR(ARR(STRING)), ARR(FARR(UINT(), 2)), FARR(ARR(BYTES), 2), FARR(FARR(INT(), 2), 3), ARR(FARR(STRING, 2)), ARR(ARR(ARR(BOOL))), FARR(ARR(FB(4)), 2)]


RESERVED = set("""abstract alignof as async await become box break const continue crate do dyn else enum extern false final fn for if impl in let loop macro
match mod move mut offsetof override priv proc pub pure ref return self sizeof static struct super trait true try type typeof union unsafe unsized use
virtual where while yield code call data param topic""".split())


class Modules:
    def __init__(self, g, d):
        self.g, self.r, self.dir = g, g.r, d
        self.mods = []         # (name, interface)
        self.only_signatures = None

    def params(self, ts, indexed=None, ctor=False, event=False):
        r = self.r
        names = [p for p in PN if not (ctor and p[0] == "code") and not (event and p[0] == "self")]
        names = r.sample(names, min(len(ts), len(names)))
        out = []
        for i, t in enumerate(ts):
            if r.random() < 0.2 or i >= len(names):
                nm, rn = "", ("topic%d" if indexed and indexed[i] else "param%d") % i
            else:
                nm, rn = names[i]
            p = dict(name=text(nm), kind=t, rust=rn, internal=[])
            if indexed is not None:
                p["indexed"] = indexed[i]
            out.append(p)
        return out

    def fn(self, name, ins, outs):
        return dict(name=text(name[0]), rust=name[1], inputs=self.params(ins), outputs=self.params(outs), constant=self.r.random() < 0.3,
                    mutability=text(self.r.choice(["pure", "view", "nonpayable", "payable"])))

    def ev(self, name, ts, ix, anonymous=False):
        return dict(name=text(name[0]), rust=name[1], inputs=self.params(ts, ix, event=True), anonymous=anonymous)

    def add(self, c):
        self.mods.append(("m%d" % len(self.mods), c))

    def iface(self, ctor, fns, evs):
        self.add(dict(ctor=ctor, fns=fns, evs=evs, fallback=self.r.random() < 0.5, receive=self.r.random() < 0.5))

    def core(self):
        fns, evs = [], []
        for i, t in enumerate(CORE):
            fns.append(self.fn(("in%dT" % i, "in%d_t" % i), [t, UINT()] if in_ok(t) else [BOOL], [t]))
            fns.append(self.fn(("two%d" % i, "two%d" % i), [], [self.r.choice(BASE), t]))
            evs.append(self.ev(("Plain%d" % i, "plain%d" % i), [t, BOOL], [False, True]))
            if ix_ok(t):
                evs.append(self.ev(("Indexed%d" % i, "indexed%d" % i), [STRING, t], [False, True]))
        h = len(fns) // 2
        self.iface([], fns[:h], evs[: len(evs) // 2])
        self.iface([], fns[h:], evs[len(evs) // 2:])
        ok = [t for t in CORE if in_ok(t)]
        for k in range(0, len(ok), 9):
            ts = ok[k:k + 9]
            self.iface([dict(inputs=self.params(ts, ctor=True))], [self.fn(FN[0], ts[::-1], ts[:7])], [])
        self.iface([dict(inputs=[])], [self.fn(FN[1], [], []), self.fn(FN[2], [BOOL], [])],
                   [self.ev(EV[0], [], []), self.ev(EV[1], [], [], True), self.ev(EV[2], [UINT(), ADDRESS, FB(32)], [True] * 3), self.ev(EV[3], [UINT(), ADDRESS, FB(32), BOOL], [True] * 4, True),
                    self.ev(EV[4], [UINT(), UINT(), UINT(), UINT(), UINT(), UINT()], [False, True, False, True, False, True]),
                    self.ev(EV[5], [ADDRESS, ADDRESS, ADDRESS, ADDRESS], [False, False, True, False])])

    def sweep(self):
        """Every width, many arities, every pattern of indexed parameters, the sizes of the working tree."""
        g, r = self.g, self.r
        fns = []
        for k in range(0, 32, 4):
            ts = [FB(n) for n in range(k + 1, k + 5)]
            fns.append(self.fn(("b%d" % k, "b%d" % k), ts, ts[::-1]))
        ws = list(range(8, 264, 8))
        for k in range(0, 32, 8):
            for odd in (0, 1):
                ts = [UINT(w) if (w // 8 + odd) % 2 else INT(w) for w in ws[k:k + 8]]
                n = "w%d" % (k + odd)
                fns.append(self.fn((n, n), ts, ts[::-1]))
        for n in g.sizes([3, 6, 8, 12], 20):
            ts = [BASE[(i * 5 + n) % len(BASE)] for i in range(n)]
            fns.append(self.fn(("n%d" % n, "n%d" % n), ts, ts[::-1]))
        for n in g.sizes([3, 4, 7, 32], 33):
            if n:
                fns.append(self.fn(("s%d" % n, "s%d" % n), [FARR(UINT(), n), FARR(STRING, n)], [FARR(BYTES, n), FARR(BOOL, n)]))
        evs = []
        for n in (1, 2, 3, 4):
            for mask in range(1 << n):
                ix = [bool(mask >> i & 1) for i in range(n)]
                anon = sum(ix) == 4 or (mask + n) % 5 == 0
                ts = [r.choice([UINT(), ADDRESS, STRING, FB(32), BOOL, BYTES, ARR(UINT())]) for _ in ix]
                evs.append(self.ev(("M%dx%d" % (n, mask), "m%dx%d" % (n, mask)), ts, ix, anon))
        for k in range(0, 32, 8):
            for odd in (0, 1):
                ts = [UINT(w) if (w // 8 + odd) % 2 else INT(w) for w in ws[k:k + 8]]
                n = "w%d" % (k + odd)
                evs.append(self.ev((n.upper(), n), ts, [i in (0, 3, 5) for i in range(8)]))
        self.iface([], fns, evs)

    def hinted(self):
        """Declarations with the names the working tree mentions."""
        g = self.g
        names = [x for x in g.strs if re.fullmatch("[a-z]{2,20}", x) and x not in RESERVED and x not in {n for n, _ in PN}][:20]
        if names:
            self.iface([], [dict(self.fn((n, n), [UINT(), STRING], [UINT(), BOOL])) for n in names], [self.ev((n.capitalize(), n), [UINT(), STRING], [True, False]) for n in names])
            for n in names:
                f = self.fn(("with" + n.capitalize(), "with_" + n), [UINT(), STRING], [BOOL])
                f["inputs"][1].update(name=text(n), rust=n)
                e = self.ev(("With" + n.capitalize(), "with_" + n), [UINT(), STRING], [True, False])
                e["inputs"][1].update(name=text(n), rust=n)
                self.iface([], [f], [e])

    def type(self, ok):
        r = self.r
        while True:
            t = r.choice(BASE)
            for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
                t = ARR(t) if r.random() < 0.6 else FARR(t, r.randint(1, 3))
            if ok(t):
                return t

    def random(self):
        r = self.r
        fns = [self.fn(n, [self.type(in_ok) for _ in range(r.randint(0, 4))], [self.type(lambda t: True) for _ in range(r.randint(0, 4))]) for n in r.sample(FN, r.randint(2, 5))]
        evs = []
        for n in r.sample(EV, r.randint(2, 4)):
            k = r.randint(0, 6)
            anon = r.random() < 0.25
            ix = [False] * k
            for i in r.sample(range(k), min(k, r.randint(0, 4 if anon else 3))):
                ix[i] = True
            evs.append(self.ev(n, [self.type(ix_ok if x else (lambda t: True)) for x in ix], ix, anon))
        self.iface([dict(inputs=self.params([self.type(in_ok) for _ in range(r.randint(0, 4))], ctor=True))] if r.random() < 0.6 else [], fns, evs)

    def known(self, names):
        """Declarations of the known findings."""
        self.iface([], [], [self.ev((n, snake), [ADDRESS, UINT()], [True, False]) for n, snake in names])
        self.only_signatures = self.mods[-1][0]
        for e in self.mods[-1][1]["evs"]:
            for p, nm in zip(e["inputs"], ("to", "value")):
                p["name"], p["rust"] = text(nm), nm

    def modelled(self, events):
        """The declarations of a model's behaviours, 60 to a module; says in each event where it belongs."""
        places, mods, free = {}, [], []

        def params(ps):
            return [dict(name=p["name"], kind=p["kind"], rust=untext(p["name"]) or ("topic%d" if p.get("indexed") else "param%d") % i, internal=[], **({"indexed": p["indexed"]} if "indexed" in p else {}))
                    for i, p in enumerate(ps)]

        def bare(ts):
            return params([dict(name=[] if i == 1 else text("p%d" % i), kind=t) for i, t in enumerate(ts)])
        for e in events:
            d = e["args"].pop("decl")
            key = dumps(d)
            if key not in places:
                m = next((m for m in mods if not m["ctor"]), None) if d["k"] == "ctor" else next((m for m in mods if len(m["fns"]) + len(m["evs"]) < 60), None)
                if m is None:
                    m = dict(ctor=[], fns=[], evs=[], fallback=False, receive=False, modelled=True)
                    mods.append(m)
                where = "m%d" % (len(self.mods) + mods.index(m))
                if d["k"] == "ctor":
                    m["ctor"].append(dict(inputs=bare(d["ins"])))
                    places[key] = where + "/ctor"
                elif d["k"] == "fn":
                    n = untext(d["name"])
                    m["fns"].append(dict(name=d["name"], rust=n, inputs=bare(d["ins"]), outputs=bare(d["outs"]), constant=False, mutability=text("view")))
                    places[key] = where + "/f/" + n
                else:
                    n = untext(d["ev"]["name"]).lower()
                    m["evs"].append(dict(name=d["ev"]["name"], rust=n, inputs=params(d["ev"]["inputs"]), anonymous=d["ev"]["anonymous"]))
                    places[key] = where + "/e/" + n
            e["at"] = places[key]
        for m in mods:
            self.add(m)
        return len(places)

    # ---- source text ----
    def glue(self):
        out = ["// %d" % self.r.getrandbits(60)]
        disp = []
        for m, c in self.mods:
            path = os.path.join(self.dir, m + ".abi")
            with open(path, "w") as f:
                f.write(json_text(Docs(self.g, plain=self.r.random() < 0.5).doc(c)))
            out.append('ethabi_contract::use_contract!(%s, "%s");' % (m, path))
            arms = []
            args = lambda ps: ", ".join("<%s as Arg>::arg(&t[%d])" % (rust(p["kind"]), i) for i, p in enumerate(ps))
            for k in c["ctor"]:
                arms.append('("ctor", "create") => { let t = value::toks(&a["toks"]); bytes_reply(%s::constructor(%s)) }' % (m, ", ".join(['value::bytes(&a["code"])'] + ([args(k["inputs"])] if k["inputs"] else []))))
            for f in c["fns"]:
                p = "%s::functions::%s" % (m, f["rust"])
                w = "f/" + f["rust"]
                arms.append('("%s", "call") => { let t = value::toks(&a["toks"]); bytes_reply(if a["via"] == "enc" { %s::encode_input(%s) } else { %s::call(%s).0 }) }' % (w, p, args(f["inputs"]), p, args(f["inputs"])))
                arms.append('("%s", "decode") => { let d = value::bytes(&a["data"]); if a["via"] == "out" { return rets_reply(%s::decode_output(&d), &a["types"]); } let t = value::toks(&a["toks"]); rets_reply(ethabi::FunctionOutputDecoder::decode(&%s::call(%s).1, &d), &a["types"]) }' % (w, p, p, args(f["inputs"])))
            for e in c["evs"]:
                p = "%s::events::%s" % (m, e["rust"])
                w = "e/" + e["rust"]
                reqs = ", ".join('req::<%s>(&a["reqs"][%d])' % (rust(q["kind"]), i) for i, q in enumerate([q for q in e["inputs"] if q["indexed"]]))
                arms.append('("%s", "evsig") => bytes_reply(%s::event().signature().as_bytes().to_vec())' % (w, p))
                arms.append('("%s", "filter") => filter_reply(if a["via"] == "wild" { %s::wildcard_filter() } else { %s::filter(%s) })' % (w, p, p, reqs))
                fields = ", ".join("{ let x = l.%s; Box::new(move |t: &ParamType| x.ret(t)) as Box<dyn FnOnce(&ParamType) -> Token> }" % q["rust"] for q in e["inputs"])
                arms.append('("%s", "plog") => %s::parse_log(raw_log(a)).ok().and_then(|l| { let _ = &l; log_reply(&a["ev"], vec![%s]) })' % (w, p, fields))
            out.append('#[allow(unused_variables)]\nfn dispatch_%s(at: &str, op: &str, a: &Value) -> Option<Value> {\n\tmatch (at, op) {\n\t\t%s,\n\t\t_ => panic!("no such function"),\n\t}\n}' % (m, ",\n\t\t".join(arms)))
            disp.append('"%s" => dispatch_%s(w, op, a)' % (m, m))
        out.append('fn dispatch(at: &str, op: &str, a: &Value) -> Option<Value> {\n\tlet (m, w) = at.split_once(\'/\').unwrap();\n\tmatch m {\n\t\t%s,\n\t\t_ => panic!("no such module"),\n\t}\n}' % ",\n\t\t".join(disp))
        with open(os.path.join(self.dir, "glue.rs"), "w") as f:
            f.write("\n".join(out) + "\n")

    # ---- events ----
    def events(self, scale):
        g, r = self.g, self.r
        out = []

        def add(at, op, args):
            out.append(dict(id=len(out), op=op, args=args, at=at))

        small = lambda ts: [g.value(t, maxlen=2) for t in ts]
        n = max(1, int(scale))
        for m, c in self.mods:
            if c.get("modelled"):
                continue
            for k in c["ctor"]:
                ts = [p["kind"] for p in k["inputs"]]
                for _ in range(n + 1):
                    add(m + "/ctor", "create", dict(types=ts, code=g.blob(r.choice([0, 1, 32, 40])), toks=small(ts)))
            for f in c["fns"]:
                w = m + "/f/" + f["rust"]
                ts, os_ = [p["kind"] for p in f["inputs"]], [p["kind"] for p in f["outputs"]]
                for _ in range(n):
                    add(w, "call", dict(name=f["name"], types=ts, outs=os_, toks=small(ts), via=r.choice(["enc", "call"])))
                vs = small(os_)
                datas = [enc(vs)] + [enc(small(os_)) for _ in range(n - 1)] + list(hostile(g, os_, vs, n)) + [[]] + edges(g, os_, lambda: enc(small(os_)))
                for vs in edges(g, ts, lambda: small(ts)):
                    add(w, "call", dict(name=f["name"], types=ts, outs=os_, toks=vs, via=r.choice(["enc", "call"])))
                for d in datas:
                    if len(d) < 4000:
                        add(w, "decode", dict(types=os_, data=list(d), via=r.choice(["out", "out", "call"]), toks=small(ts)))
            for e in c["evs"]:
                w = m + "/e/" + e["rust"]
                ev = dict(name=e["name"], inputs=[dict(name=p["name"], kind=p["kind"], indexed=p["indexed"]) for p in e["inputs"]], anonymous=e["anonymous"])
                add(w, "evsig", dict(ev=ev))
                if m == self.only_signatures:
                    continue
                ix = [p["kind"] for p in ev["inputs"] if p["indexed"]]
                for _ in range(n):
                    q = []
                    for t in ix:
                        x = r.random()
                        q.append(dict(k="any") if x < 0.25 else dict(k="this", v=g.value(t, maxlen=2)) if x < 0.7 else dict(k="oneof", vs=[g.value(t, maxlen=2) for _ in range(r.randint(0, 3))]))
                    add(w, "filter", dict(ev=ev, reqs=(q + [dict(k="any")] * 3)[:max(3, len(q))], via="args"))
                add(w, "filter", dict(ev=ev, reqs=[dict(k="any")] * 3, via="wild"))
                for ts, d in list(hostile_logs(g, ev, n)) + [(emit(g, ev)[1:]) for _ in range(n - 1)] + edges(g, [p["kind"] for p in ev["inputs"]], lambda: emit(g, ev)[1:])[:3]:
                    if len(d) < 3000:
                        add(w, "plog", dict(ev=ev, topics=ts, data=d))
        # the fourth request of an anonymous event has no place in a filter
        for e in out:
            if e["op"] == "filter":
                e["args"]["reqs4"], e["args"]["reqs"] = e["args"]["reqs"], e["args"]["reqs"][:3]
        return out


def edges(g, ts, make):
    """What make gives with the numbers at the edges of their widths, if there are any."""
    def wide(t):
        return t["k"] in ("uint", "int") and t["n"] < 256 or "t" in t and wide(t["t"]) or any(wide(x) for x in t.get("ts", ()))
    out = []
    if any(wide(t) for t in ts):
        for g.edge in range(6):
            out.append(make())
        g.edge = None
    return out


def build_vd(d):
    """(executable or None, compiler output)"""
    man = os.path.join(VERIF, "harness/vd/Cargo.toml")
    extra = dict(VD_DIR=d)
    ok, out = cargo(man, "vd", "--locked", extra_env=extra)
    return (os.path.join(BUILD, "vd/debug/vd") if ok else None), out


def run(run, scale):
    findings = [f for f in known_findings() if f["property"] == "C14" and f.get("kind") == "evsig"]
    d = os.path.join(run.work, "gen")
    empty = os.path.join(run.work, "empty")
    os.makedirs(d), os.makedirs(empty)
    with open(os.path.join(empty, "glue.rs"), "w") as f:
        f.write("fn dispatch(_: &str, _: &str, _: &Value) -> Option<Value> {\n\tNone\n}\n")
    exe, out = build_vd(empty)
    if not exe:
        raise ToolError("the derive harness does not build:\n" + out[-6000:])
    ints, strs = hints.novel(REPO)
    ms = Modules(Gen(run.seed, ints, strs), d)
    ms.core()
    ms.sweep()
    for _ in range(int(3 * scale)):
        ms.random()
    ms.known([(f["name"], f["module"]) for f in findings])
    told = []
    for name, quick, thorough in run.conf.get("models", ()):
        depth = quick if run.tier == "quick" else thorough
        states, distinct, found = models.explore(name, depth, run.work, 850 if run.tier == "quick" else 6 * 3600)
        more = [json.loads(x) for x in found["INPUT"]]
        n = ms.modelled(more)
        told += more
        run.states += distinct
        run.models.append(dict(model=name, depth=depth, states=states, distinct=distinct, declarations=n, behaviours_recorded=len(more)))
    sure = len(ms.mods)
    ms.hinted()
    ms.glue()
    exe, out = build_vd(d)
    if not exe and len(ms.mods) > sure:
        # a name the generator may not support: without them
        del ms.mods[sure:]
        ms.glue()
        exe, out = build_vd(d)
    if not exe:
        # the generator accepted these files before: what it generates must compile
        errs = [l for l in out.splitlines() if l.startswith("error")]
        run.bad.append((dict(id=0, op="generate", args=dict(modules=len(ms.mods)), res=dict(s="does not compile", v=errs[:20], out=out[-4000:])), "bindings for supported types compile", []))
        return
    events = ms.events(scale)
    for e in told:
        events.append(dict(e, id=len(events)))
    for e in events:
        if "reqs4" in e["args"]:
            e["args"]["reqs"], e["args"]["reqs3"] = e["args"].pop("reqs4"), e["args"]["reqs"]
    recorded = execute(exe, events, run.work, "run")
    for e in recorded:
        if "reqs3" in e["args"]:
            e["args"]["reqs"] = e["args"].pop("reqs3")
    run.trace(events, recorded, "run")
    # what is already known
    left = []
    for e, want, before in run.bad:
        hit = None
        if e["op"] == "evsig" and e["res"]["s"] == "ok":
            for f in findings:
                if untext(e["args"]["ev"]["name"]) == f["name"] and e["res"]["v"] == list(keccak256((f["hashed_as"] + "(address,uint256)").encode())):
                    hit = f
        if hit is None:
            left.append((e, want, before))
        else:
            run.known.append(hit["what"])
    run.bad = left
