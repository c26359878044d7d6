"""TLC models of the specification: exhaustive checking, and replay of their behaviours into the implementation."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from vlib import *


def unquote(line):
    return json.loads('"' + line + '"') if "\\" in line else line


def explore(name, depth, work, timeout, shards=CORES, args=(), part=""):
    """Run a model in shards; returns (states, distinct, lines by tag)."""
    def one(k):
        return tlc(os.path.join(SPEC, name + ".tla"), os.path.join(SPEC, name + ".cfg"), work,
                   dict(SHARD=str(k), SHARDS=str(shards), DEPTH=str(depth), PART=part), heap="3g", timeout=timeout, args=[str(x).replace("SHARD", str(k)) for x in args])
    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, range(shards)))
    states = distinct = 0
    found = {"VECTOR": [], "INPUT": [], "SESSION": []}
    for rc, out in res:
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out) or re.search(r"number of states generated: ((\d+))", out)
        if rc != 0 or not m:
            # the models do not depend on the code: this is an error of the machinery
            text = "\n".join(l for l in out.splitlines() if not l.startswith(('"', "Parsing file", "Semantic processing")))
            raise ToolError("model %s: TLC rc %s\n%s" % (name, rc, text[-5000:]))
        states += int(m.group(1))
        distinct += int(m.group(2))
        for line in out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                tag, _, body = line[1:-1].partition(" ")
                if tag in found:
                    found[tag].append(unquote(body))
    return states, distinct, found


def replay(vx, lines, work, tag):
    """Vectors through the real library; returns (number, mismatches)."""
    bad = []
    lines = list(lines)
    parts = [lines[k::CORES] for k in range(CORES)]

    def one(k):
        part, bad = parts[k], []
        at = 0
        while at < len(part):
            inp, outp = os.path.join(work, "%s-%d.vec" % (tag, k)), os.path.join(work, "%s-%d.rep" % (tag, k))
            with open(inp, "w") as f:
                f.write("".join(x + "\n" for x in part[at:]))
            if os.path.exists(outp):
                os.remove(outp)
            p = subprocess.run([vx, "replay", inp, outp], env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits)
            done = 0
            for line in open(outp) if os.path.exists(outp) else ():
                if not line.endswith("\n"):
                    break
                x = json.loads(line)
                if "done" in x:
                    done = x["done"]
                else:
                    bad.append(x)
            at += done
            if p.returncode == 0:
                if at != len(part):
                    raise ToolError("replay stopped early: " + p.stderr[-2000:])
                break
            if p.returncode == 3 or at >= len(part):
                raise ToolError("replay failed: " + p.stderr[-2000:])
            v = json.loads(part[at])
            bad.append(dict(v, res=dict(s="timeout" if p.returncode == 124 else "abort")))
            at += 1
        return bad
    with ThreadPoolExecutor(CORES) as ex:
        for b in ex.map(one, range(CORES)):
            bad += b
    return len(lines), bad


def run(run, vx, m, execute=execute):
    """m: (model, depth for quick, depth for thorough[, options])"""
    name, quick, thorough = m[:3]
    opt = m[3] if len(m) > 3 else {}
    depth = quick if run.tier == "quick" else thorough
    states, distinct, found = explore(name, depth, run.work, 850 if run.tier == "quick" else 6 * 3600, opt.get("shards", CORES),
                                      [str(x).replace("SEED", str(run.seed)) for x in opt.get("args" if run.tier == "quick" else "deep", opt.get("args", ()))], opt.get("part", ""))
    note = dict(model=name, depth=depth, states=states, distinct=distinct)
    run.states += distinct
    if opt.get("only"):
        found["VECTOR"] = [x for x in found["VECTOR"] if json.loads(x)["op"] in opt["only"]]
    if found["VECTOR"]:
        n, bad = replay(vx, found["VECTOR"], run.work, name)
        note["vectors_replayed"] = n
        run.transitions += n
        run.traces += n
        run.kinds["replay " + name] += n
        if opt.get("survive"):      # the values are another property's
            bad = [b for b in bad if b["res"]["s"] not in ("ok", "err")]
        run.bad += [(dict(id=-1, op=b["op"], args=b["args"], res=b["res"]), b["want"], []) for b in bad]
        v = json.loads(found["VECTOR"][len(found["VECTOR"]) // 2])
        run.samples.append(dict(model=name, op=v["op"], args=dumps(v["args"])[:240], want=dumps(v["want"])[:240]))
    events = []
    for x in found["INPUT"]:
        events.append(dict(id=len(events), **json.loads(x)))
    for i, s in enumerate(found["SESSION"]):
        for x in json.loads(s):
            events.append(dict(id=len(events), g="%s-%d" % (name, i), **x))
    if events:
        note["behaviours_recorded"] = len(found["INPUT"]) + len(found["SESSION"])
        run.trace(events, execute(vx, events, run.work, name), name)
    run.models.append(note)
