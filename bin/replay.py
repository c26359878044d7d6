#!/usr/bin/env python3
"""replay.py FILE: executes a recorded violation again on /repo's working tree and judges it."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *


def main():
    d = json.load(open(sys.argv[1]))
    e = d["event"]
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        if e["op"].startswith("cli_"):
            import cli
            c = type("C", (), {})()
            c.work, c.events, argv = work, [dict(id=0, op=e["op"], args=e["args"])], list(e["argv"])
            if e["args"].get("file"):
                p = os.path.join(work, "f.abi")
                open(p, "w").write(cli.json_text(e["args"]["file"][0]))
                argv = [p if x.endswith(".abi") else x for x in argv]
            c.argv = [argv]
            rec = cli.execute_cli(cli.build_cli(), c)
        elif e.get("at") or e["op"] == "generate":
            print("generated bindings: run bin/check.py C14 with the same VERIF_SEED")
            return 2
        else:
            todo = [dict(x) for x in d["before"]] + [{k: v for k, v in e.items() if k != "res"}]
            for x in todo:
                x.pop("res", None)
            rec = execute(build_vx(), todo, work, "replay")
        bad, _ = validate(rec, work, "replay")
        last = rec[-1]
        print("op     ", last["op"])
        print("args   ", dumps(last["args"]))
        print("reply  ", dumps(last["res"]))
        for x, want in bad:
            print("REFUSED", x["op"], "specification:", dumps(want))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
