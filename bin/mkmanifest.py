#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import CHECKS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "TLA+ specification checked with TLC; traces of the real code validated against it"
MODEL = "TLA+ specification model checked with TLC (small scope, exhaustive), its behaviours replayed into the real code, and recorded traces of the real code validated against it"
NOTE = ("Every recorded call of the real code is accepted by the TLA+ specification (spec/Abi.tla), evaluated by TLC; inputs are generated "
        "(seeded) and directed at the places where the specification branches, so this is bounded by the generated inputs. ")
MNOTE = "The specification's own laws are checked exhaustively in small scopes, and every state of those models is replayed into the code. "
TRUST = "Trusts TLC, the harness's conversion of values, and the pure TLA+ Keccak (checked against known digests)."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        m = bool(CHECKS[i].get("models"))
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i,
                           thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
                           technique=MODEL if m else TECH, level="model_checking", level_note=NOTE + (MNOTE if m else "") + TRUST))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
