#!/usr/bin/env python3
"""usage: check.py PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import os, sys, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "checks")); sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
import common
COMP = {}
for c, ps in {"tasksched": "T01 T02 T03 T04 T05 T06 T07", "heart": "H06", "hub": "H01 H02 H03 H04 H05", "db": "D01 D02 D03", "broadcast": "B01 B02", "client": "C01 C02 C03 C04 C05 C09 E01", "mapping": "C07 C08", "namespace": "E02 C10", "wire": "S01", "retrieval": "C06", "auth": "X01", "cluster": "L01 L02"}.items():
    for p in ps.split():
        COMP[p] = c
if __name__ == "__main__":
    prop = sys.argv[1]
    mod = __import__(COMP[prop])
    try:
        mod.run(prop)
    except SystemExit:
        raise
    except common.CodeRaised as e:
        x = e.args[0]
        path = vlib.replay_path(prop, {"property": prop, "clause": "the code raised an unexpected exception", **x})
        vlib.write_evidence(prop, "model_checking", {"traces_validated_against_impl": 0, "samples": [x["frames"]]}, 0, violations=1)
        print("  " + x["stderr"].strip().splitlines()[-1][:200])
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop}: the machinery failed")
        sys.exit(2)
