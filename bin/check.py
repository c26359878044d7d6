#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's working tree.

Exit 0: held on everything explored.  Exit 1 and VIOLATION lines: broken.  Exit 2: the check could not run.
"""
import argparse, collections, json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gens, hints, sweeps
from abigen import Gen, HintGen
from vlib import *

# scale of the generators per tier; models = TLC models run (and replayed) with the property
CHECKS = {
    "C01": dict(quick=2, thorough=12, models=[("MCCodec", 1, 2, dict(only=("encode",)))]),
    "C02": dict(quick=2, thorough=12, models=[("MCCodec", 1, 2, dict(only=("rt",)))]),
    "C03": dict(quick=2, thorough=12, models=[("MCDecode", 1, 2)]),
    "C04": dict(quick=2, thorough=12, survive=("plog",), models=[("MCDecode", 1, 2, dict(survive=True))]),
    "C05": dict(quick=2, thorough=12, models=[("MCTyping", 1, 2)]),
    "C06": dict(quick=2, thorough=10, models=[("MCKeccak", 1, 2)]),
    "C07": dict(quick=2, thorough=15, models=[("MCTypes", 1, 2)]),
    "C08": dict(quick=2, thorough=12, models=[("MCJson", 1, 1, dict(part=p, only=("load",))) for p in ("entry", "param", "eparam", "doc")]),
    "C09": dict(quick=2, thorough=12, models=[("MCJson", 1, 1, dict(part=p, only=("ser",))) for p in ("param", "eparam", "doc")]),
    "C10": dict(quick=2, thorough=12, models=[("MCEvents", 1, 2, dict(part="parse"))]),
    "C11": dict(quick=2, thorough=12, models=[("MCEvents", 1, 2, dict(part="filter"))]),
    "C12": dict(quick=2, thorough=15, models=[("MCLiteral", 1, 2)]),
    "C13": dict(quick=2, thorough=15, models=[("MCRender", 1, 2)]),
    "C14": dict(quick=2, thorough=8, driver="derive", models=[("MCBindings", 1, 2)]),
    "C15": dict(quick=2, thorough=12, driver="cli", models=[
                ("MCCli", 1, 2, dict(part=p)) for p in ("encode params", "encode function", "decode params", "decode function", "decode log")]),
    "C16": dict(quick=2, thorough=10, models=[("MCSession", 1, 2, dict(part="all")),
                ("MCSession", 1, 1, dict(part="long", args=["-simulate", "num=5", "-depth", "40", "-seed", "1SEEDSHARD"],
                                         deep=["-simulate", "num=200", "-depth", "40", "-seed", "1SEEDSHARD"]))]),
}


def nesting(x):
    """Depth of a JSON tree (the harness reads at most 128 levels)."""
    d, level = 0, [x]
    while level:
        d += 1
        level = [z for y in level if isinstance(y, (dict, list)) for z in (y.values() if isinstance(y, dict) else y) if isinstance(z, (dict, list))]
    return d


def events_of(prop, seed, scale):
    out = []
    ints, strs = hints.novel(REPO)
    todo = list(getattr(gens, "gen_" + prop)(Gen(seed), scale))
    if hasattr(sweeps, "sweep_" + prop):
        todo += getattr(sweeps, "sweep_" + prop)(Gen(seed + 1000003, ints, strs), scale)
    if ints or strs:
        # once more, steered by what is new in the sources; its sessions are others
        more = getattr(gens, "gen_" + prop)(HintGen(seed + 2000003, ints, strs), scale)
        todo += [("h-%s" % x[0],) + tuple(x[1:]) if len(x) == 3 else x for x in more]
    for i, x in enumerate(todo):
        e = dict(id=i, op=x[-2], args=x[-1])
        if nesting(e) > 105:
            continue
        if len(x) == 3:
            e["g"] = x[0]
        out.append(e)
    return out


def history(e, events):
    """What has to be executed before event e to see it again: the session it belongs to."""
    if e.get("g") is None:
        return []
    return [x for x in events if x.get("g") == e["g"] and x["id"] < e["id"]]


def write_replay(prop, n, body):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(path, "w") as f:
        json.dump(body, f)
    return path


def short(x, n=400):
    s = dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def sample(e):
    return dict(op=e["op"], args=short(e["args"], 240), reply=short(e["res"], 240))


class Run:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.bad = []          # (event, wanted, history)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.kinds = collections.Counter()
        self.models = []
        self.known = []

    def trace(self, events, recorded, tag):
        bad, states = validate(recorded, self.work, tag)
        # what the values are is another property's
        bad = [(e, w) for e, w in bad if e["op"] not in self.conf.get("survive", ()) or e["res"]["s"] not in ("ok", "err")]
        self.bad += [(e, w, history(e, events)) for e, w in bad]
        self.states += states
        self.transitions += len(recorded)
        self.traces += len({("g", e["g"]) if e.get("g") is not None else ("e", e["id"]) for e in recorded})
        for e in recorded:
            self.kinds[e["op"] + " " + e["res"]["s"]] += 1
        step = max(1, len(recorded) // 6)
        self.samples += [sample(e) for e in recorded[::step]][:6]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", choices=sorted(CHECKS))
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--scale", type=float)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=a.prop + "-", dir=BUILD)
    run = Run(a.prop, a.tier, seed, work)
    try:
        conf = run.conf = CHECKS[a.prop]
        scale = a.scale or conf[a.tier]
        if conf.get("driver"):
            import importlib
            importlib.import_module(conf["driver"]).run(run, scale)
        else:
            vx = build_vx()
            if hasattr(gens, "gen_" + a.prop):
                events = events_of(a.prop, seed, scale)
                run.trace(events, execute(vx, events, work, "run"), "run")
            for m in conf.get("models", ()):
                import models
                models.run(run, vx, m)
    except ToolError as x:
        print("CHECK ERROR: %s" % x)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

    for line in run.known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, line))
    shown = set()
    for n, (e, want, before) in enumerate(run.bad):
        if n >= 20:
            break
        path = write_replay(a.prop, n, dict(property=a.prop, event=e, want=want, before=before))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  %s %s" % (e["op"], short(e["args"])))
        print("  replied %s" % short(e["res"]))
        print("  specification: %s" % short(want))
    if len(run.bad) > 20:
        print("... %d more" % (len(run.bad) - 20))

    cov = dict(states=run.states, transitions=run.transitions, traces_validated_against_impl=run.traces,
               samples=run.samples, replies=dict(sorted(run.kinds.items())), models=run.models,
               mismatches=len(run.bad), known_findings=run.known)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(dict(property=a.prop, tier=a.tier, seed=seed, level="model_checking", coverage=cov,
                       wall_s=round(time.time() - t0, 2)), f, indent=1)
        f.write("\n")
    print("%s %s: %d events, %d mismatches, %.0f s" % (a.prop, a.tier, run.transitions, len(run.bad), time.time() - t0))
    return 1 if run.bad else 0


if __name__ == "__main__":
    sys.exit(main())
