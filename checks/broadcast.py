from common import *
MC = """SPECIFICATION Spec
CONSTANTS Msgs = {%(m)s} Engines = {%(e)s} D = %(d)d Gen = %(gen)s
%(props)s
"""
PR = "INVARIANTS CopiesOk Done\nPROPERTIES OnePerTarget CoalExact OutExact"
NT = 20


def run(prop):
    t0 = time.time()
    mc = vlib.model_check("BroadcastMC", MC % dict(m="1", e=tier("0,1,2", "0,1,2,5"), d=2, gen="FALSE", props=PR), timeout=1500)
    scripts = []
    for d, e in ((0, "0,1,2"), (1, "0,1,2,3"), (2, "0,1,2,5,6"), (3, "1,4,6,7,9")):
        scripts += generate_scripts("BroadcastMC", MC % dict(m="1,2", e=e, d=d, gen="TRUE", props="INVARIANT Emit\nCHECK_DEADLOCK FALSE"),
                                    tier(60, 600), 60, SEED * 10 + d + int(prop[1:]), cap=tier(60, 600))
    with vlib.Scratch("bc") as d:
        sp = os.path.join(d, "scripts.ndjson")
        with open(sp, "w") as f:
            f.writelines(json.dumps(s) + "\n" for s in scripts)
        a = harness("h_bcast.py", ["script", SEED, 0, sp], d, name="a.ndjson")
        b = harness("h_bcast.py", ["random", SEED * 10 + int(prop[1:]), tier(600, 12000)], d, name="b.ndjson", timeout=1500)
    traces = a + b
    verdicts, stats = vlib.validate_traces("BroadcastTrace", traces, "CONSTANTS Msgs = {1,2,3,4} Engines = {" + ",".join(map(str, range(NT))) + "}", timeout=1500)
    finish(prop, t0, mc, traces, verdicts, stats, extra_cov={"spec_generated_scripts": len(scripts), "event_kinds": count_kinds(traces)},
           assumptions=["messages on one connection arrive in order; no scheduler process dies"])
