"""Constants of the sources as inputs.

A fuzzer's dictionary: the integer, character and string literals that the working tree has and the tree this
verification was written for had not.  They only steer the choice of inputs (sizes, counts, bytes, names); what the
replies have to be does not depend on them, so an edit that adds constants without changing behaviour adds inputs
and nothing else.

    hints.py --baseline     rewrites hints_base.json from /repo
"""
import collections, json, os, re, sys

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "hints_base.json")
TOKEN = re.compile(r"""
    //[^\n]* | /\*.*?\*/
  | (?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
  | (?P<str>b?"(?:\\.|[^"\\])*")
  | (?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)|[^'\\])')
  | (?P<max>\b[ui](?:8|16|32|64|128|size)::(?:MAX|MIN|max_value\(\))|\bas\s+[ui](?:8|16|32|64)\b|\b[ui](?:8|16|32)::(?:from|try_from)\b)
  | (?P<int>\b(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?\b)
""", re.X | re.S)
SHIFT = re.compile(r"\b1[ui0-9size_]*\s*<<\s*([0-9]+)")
PROD = re.compile(r"\b([0-9][0-9_]*)(?:[ui](?:8|16|32|64|size))?\s*\*\s*([0-9][0-9_]*)(?:[ui](?:8|16|32|64|size))?\b")


def sources(repo):
    for crate in ("ethabi", "derive", "contract", "cli"):
        for d, _, fs in os.walk(os.path.join(repo, crate, "src")):
            for f in sorted(fs):
                if f.endswith(".rs"):
                    yield os.path.join(d, f)


def number(s):
    s = re.sub(r"(?<=[0-9a-fA-F])[ui](8|16|32|64|128|size)$", "", s.replace("_", "")) if not s.startswith("0x") else re.sub(r"(?:[ui](?:8|16|32|64|128|size))$", "", s.replace("_", ""))
    try:
        return int(s, 0) if s[:2].lower() in ("0x", "0b", "0o") else int(s)
    except ValueError:
        return None


def unescape(s):
    def one(m):
        e = m.group(1)
        if e[0] == "x":
            return chr(int(e[1:], 16))
        if e[0] == "u":
            return chr(int(e[2:-1], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(e[0], e[0])
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)", one, s, flags=re.S)


def literals(repo):
    out = collections.Counter()
    for p in sources(repo):
        try:
            src = open(p, encoding="utf-8", errors="replace").read()
        except OSError:
            continue
        bare = []
        for m in TOKEN.finditer(src):
            if m.group("raw"):
                out["s:" + re.sub(r'^b?r#*"|"#*$', "", m.group("raw"))] += 1
            elif m.group("str"):
                out["s:" + unescape(m.group("str").lstrip("b")[1:-1])] += 1
            elif m.group("chr"):
                out["c:" + unescape(m.group("chr").lstrip("b")[1:-1])] += 1
            elif m.group("max"):
                out["m:" + re.sub(r"\s+", " ", m.group("max"))] += 1
            elif m.group("int"):
                n = number(m.group("int"))
                if n is not None:
                    out["i:%d" % n] += 1
        code = re.sub(r"//[^\n]*", "", src)
        for m in SHIFT.finditer(code):
            out["i:%d" % (1 << min(int(m.group(1)), 260))] += 1
        for m in PROD.finditer(code):
            out["i:%d" % (int(m.group(1).replace("_", "")) * int(m.group(2).replace("_", "")))] += 1
    return out


def novel(repo="/repo"):
    """(integers, texts) that are new, or more frequent than they were."""
    with open(BASE) as f:
        base = collections.Counter(json.load(f))
    new = literals(repo) - base
    ints, strs = set(), set()
    for k in new:
        kind, v = k[0], k[2:]
        if kind == "i":
            ints.add(int(v))
        elif kind == "c":
            strs.add(v)
            ints.add(ord(v[0]) if v else 0)
        elif kind == "s":
            if len(v) <= 200:
                strs.add(v)
                ints.add(len(v))
        else:
            b = re.search(r"(8|16|32|64|128|size)", v).group(1)
            b = 64 if b == "size" else int(b)
            ints |= {(1 << b) - 1, 1 << b, 1 << (b - 1)}
    return sorted(ints), sorted(strs)


if __name__ == "__main__":
    if "--baseline" in sys.argv:
        with open(BASE, "w") as f:
            json.dump(dict(sorted(literals("/repo").items())), f, indent=0, sort_keys=True)
            f.write("\n")
    else:
        print(novel(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
