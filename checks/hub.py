from common import *
CONST = "CONSTANTS Uuids = {1,2,3,4,5,6,7,8,9,10,11,12} Msgs = {%s}" % ",".join(map(str, range(1, 31)))
MC = """SPECIFICATION Spec
CONSTANTS Uuids = {%(u)s} Msgs = {%(m)s} Gen = %(gen)s MaxOps = %(ops)d Members = %(mem)s Records = %(recs)s MaxTime = %(time)d
%(props)s
"""
INV = {"H01": "UniqueIds NotBoth", "H02": "NotBoth NoOverdue UniqueIds", "H03": "Placed NotForgotten", "H04": "Placed CompDone", "H05": "Placed CompDone"}
PROFILES = {"H01": "members,all,members", "H02": "members,all,death", "H03": "records,io,all,death,purge", "H04": "records,all,death", "H05": "purge,purge,all"}


def run(prop):
    t0 = time.time()
    mem = prop in ("H01", "H02")
    props = "INVARIANTS " + INV[prop] + ("" if mem else "\nPROPERTY Stable")
    mc = vlib.model_check("HubMC", MC % dict(u="1,2,3" if mem else "1,2", m="1" if mem else "1,2", gen="FALSE", ops=tier(7, 8), mem="TRUE",
                                             recs="FALSE" if mem else "TRUE", time=9, props=props), timeout=1500)
    off = int(prop[1:])
    scripts = generate_scripts("HubMC", MC % dict(u="1,2,3", m="1,2,3,4,5,6", gen="TRUE", ops=14, mem="TRUE", recs="TRUE", time=30,
                                                  props="INVARIANT Emit\nCHECK_DEADLOCK FALSE"), tier(60, 1200), 16, SEED * 100 + off, timeout=900, cap=tier(200, 4000))
    with vlib.Scratch("hub") as d:
        sp = os.path.join(d, "scripts.ndjson")
        with open(sp, "w") as f:
            f.writelines(json.dumps(s) + "\n" for s in scripts)
        a = harness("h_hub.py", ["script", SEED, 0, sp], d, name="a.ndjson")
        b = harness("h_hub.py", ["random", SEED * 100 + off, tier(1500, 25000), PROFILES[prop]], d, name="b.ndjson", timeout=1500)
    traces = a + b
    verdicts, stats = vlib.validate_traces("HubTrace", traces, CONST, timeout=1500)
    finish(prop, t0, mc, traces, verdicts, stats, extra_cov={"spec_generated_scripts": len(scripts), "event_kinds": count_kinds(traces)},
           assumptions=["hub driven through stub sockets on a virtual clock", "messages of one scheduler reach the hub in the order they were sent"])
