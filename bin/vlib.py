"""Building, executing, validating: the plumbing between generator, library and TLC."""
import json, os, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
CORES = 8


def known_findings():
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        return json.load(f)["findings"]


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUST_BACKTRACE", "RUSTFLAGS", "CARGO_TARGET_DIR", "JAVA_TOOL_OPTIONS"):
        e.pop(k, None)
    return e


def cargo(manifest, target, *extra, extra_env=None):
    """A build of the working tree; returns (ok, output)."""
    p = subprocess.run(
        ["cargo", "build", "--offline", "--manifest-path", manifest, "--target-dir", os.path.join(BUILD, target), *extra],
        env=dict(env(), **(extra_env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=VERIF)
    return p.returncode == 0, p.stdout


def build_vx():
    ok, out = cargo(os.path.join(VERIF, "harness/vx/Cargo.toml"), "vx", "--release", "--locked")
    if not ok:
        raise ToolError("harness does not build:\n" + out[-6000:])
    return os.path.join(BUILD, "vx/release/vx")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def dumps(x):
    return json.dumps(x, separators=(",", ":"))


def execute(vx, events, work, tag):
    """Run events in order in one process; an abort or a hang is the reply of the event it hit."""
    inp, outp = os.path.join(work, tag + ".in"), os.path.join(work, tag + ".out")
    recorded = []
    start = 0
    while start < len(events):
        with open(inp, "w") as f:
            for e in events[start:]:
                f.write(dumps(e) + "\n")
        if os.path.exists(outp):
            os.remove(outp)
        p = subprocess.run([vx, "exec", inp, outp], env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, preexec_fn=limits)
        done = 0
        if os.path.exists(outp):
            with open(outp) as f:
                for line in f:
                    if not line.endswith("\n"):
                        break
                    x = json.loads(line)
                    recorded.append(x)
                    if x.pop("last"):
                        done += 1
        start += done
        if p.returncode == 0:
            if start != len(events):
                raise ToolError("harness stopped early: %s" % p.stderr[-2000:])
            break
        if start >= len(events):
            raise ToolError("harness failed after the last event: %s" % p.stderr[-2000:])
        if p.returncode == 3:
            raise ToolError("harness error at event %s: %s" % (dumps(events[start])[:2000], p.stderr[-2000:]))
        how = "timeout" if p.returncode == 124 else "abort"
        e = dict(events[start])
        if e["op"] in ("par", "repeat"):
            e = dict(id=e["id"], op="s_drop", args=dict(h=0), par=e)
        e["res"] = dict(s=how)
        recorded.append(e)
        start += 1
        # a session needs its interfaces again
        if start < len(events) and events[start].get("g") is not None:
            g = events[start]["g"]
            pre = [x for x in events[:start] if x.get("g") == g and x["op"] in ("s_load", "s_clone", "s_drop")]
            events = events[:start] + pre + events[start:]
    for p_ in (inp, outp):
        if os.path.exists(p_):
            os.remove(p_)
    return recorded


JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
_tlc_classes = threading.Lock()


def tlc_classes():
    """Where the classes TLC evaluates some operators by are compiled to."""
    src, d = os.path.join(VERIF, "harness/tlc/Keccak.java"), os.path.join(BUILD, "tlc")
    out = os.path.join(d, "Keccak.class")
    with _tlc_classes:
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            os.makedirs(d, exist_ok=True)
            p = subprocess.run(["javac", "-cp", JARS, "-d", d, src], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise ToolError("javac: " + p.stdout[-2000:])
    return d


def tlc(module, cfg, work, extra_env=None, heap="2g", args=(), timeout=800, workers=1):
    meta = os.path.join(work, "states-" + os.path.basename(cfg) + "-%d-%d" % (os.getpid(), threading.get_ident()))
    e = env()
    e.update(extra_env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss256m", "-DTLA-Library=" + SPEC,
           "-cp", JARS + ":" + tlc_classes(), "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module]
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           cwd=work)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return -1, (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def weight(e):
    n = len(dumps(e))
    if e["op"] in ("evsig", "call", "filter", "plog", "cli_encfn", "cli_declog", "s_load"):
        n += 200
    return n + 200


def shards(events, n):
    """Split so that groups (sessions) stay together, by estimated cost."""
    groups, order = {}, []
    for e in events:
        g = e.get("g")
        key = ("g", g) if g is not None else ("e", len(order))
        if key not in groups:
            groups[key] = []
            order.append(key)
        groups[key].append(e)
    bins = [([], 0) for _ in range(n)]
    for key in sorted(order, key=lambda k: -sum(map(weight, groups[k]))):
        i = min(range(n), key=lambda j: bins[j][1])
        bins[i] = (bins[i][0] + groups[key], bins[i][1] + sum(map(weight, groups[key])))
    return [b for b, _ in bins if b]


def validate(events, work, tag, timeout=800):
    """Check recorded events against Abi; returns (mismatches, states)."""
    parts = shards(events, CORES)

    def one(k):
        part = parts[k]
        bad = []
        states = 0
        while part:
            path = os.path.join(work, "%s-%d.ndjson" % (tag, k))
            with open(path, "w") as f:
                for e in part:
                    f.write(dumps(dict(id=e["id"], op=e["op"], args=e["args"], res=e["res"])) + "\n")
            rc, out = tlc(os.path.join(SPEC, "AbiTrace.tla"), os.path.join(SPEC, "AbiTrace.cfg"), work, dict(TRACE=path), timeout=timeout)
            want = {}
            seen = set()
            for line in out.splitlines():
                line = line.strip().strip('"')
                if line.startswith("MISMATCH "):
                    seen.add(int(line.split()[1]))
                elif line.startswith("WANTED "):
                    try:
                        w = json.loads(line[7:].replace('\\"', '"').replace("\\\\", "\\"))
                        want[w["i"]] = w["want"]
                    except ValueError:
                        pass
            known = {id(e) for e, _ in bad}
            bad += [(part[i - 1], want.get(i)) for i in sorted(seen) if id(part[i - 1]) not in known]
            if rc == 0 and "CONSUMED %d" % len(part) in out:
                states += len(part) + 1
                os.remove(path)
                break
            # a reply whose shape cannot even be compared with what the specification allows
            at = re.findall(r"consumed = (\d+)", out)
            if at and "Attempted to" in out and int(at[-1]) < len(part):
                i = int(at[-1])
                bad = [b for b in bad if b[0] is not part[i]] + [(part[i], "a reply of another shape")]
                states += i
                break           # the rest of this part is not looked at: the violation is there
            raise ToolError("TLC failed on %s (rc %s):\n%s" % (path, rc, out[-5000:]))
        return bad, states

    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, range(len(parts))))
    return [b for bad, _ in res for b in bad], sum(s for _, s in res)
