#!/usr/bin/env python3
"""Run checks against the planted bugs: seedtest.py [--all] [id...].

Not a check. Applies seeded/<id>/patch.diff to /repo, runs the quick check of its
property (with --all: every check) and takes the patch back. Prints one line per bug.
"""
import glob, json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def git(*a):
    return subprocess.run(["git", "-C", "/repo", *a], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    args = sys.argv[1:]
    every = "--all" in args
    ids = [a for a in args if not a.startswith("-")] or sorted(os.path.basename(d) for d in glob.glob(VERIF + "/seeded/*"))
    props = [json.loads(l)["id"] for l in open(VERIF + "/properties.jsonl")]
    if git("status", "--porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    missed = []
    for i in ids:
        d = os.path.join(VERIF, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        r = git("apply", d + "/patch.diff")
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout)
            continue
        got = {}
        try:
            for p in props if every else [meta["property"]]:
                t = time.time()
                q = subprocess.run(["python3", VERIF + "/bin/check.py", p, "--tier", "quick"], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED="1"))
                n = q.stdout.count("VIOLATION property=%s " % p)
                got[p] = (q.returncode, n, time.time() - t)
                if q.returncode not in (0, 1):
                    print(q.stdout[-1500:])
        finally:
            git("checkout", "--", ".")
        own = got[meta["property"]]
        caught = own[0] == 1 and own[1] > 0
        if not caught:
            missed.append(i)
        print("%-32s %s %s %s" % (i, meta["property"], "caught" if caught else "MISSED rc=%d" % own[0],
                                  " ".join("%s:%d/%d/%.0fs" % (p, *g) for p, g in got.items() if g[0])), flush=True)
    print("missed:", missed)


main()
