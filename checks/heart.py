from common import *
MC = """SPECIFICATION Spec
CONSTANTS Hearts = {%(h)s} Gen = %(gen)s MaxBeats = %(b)d Maxes = {%(mx)s} Ages = {%(a)s}
%(props)s
"""


def run(prop):
    t0 = time.time()
    mc = vlib.model_check("HeartMonMC", MC % dict(h="1,2", gen="FALSE", b=tier(9, 14), mx="0,1,2,3", a="0,1,2", props="INVARIANT Bound\nPROPERTIES StopExact NewExact"), timeout=1500)
    scripts, st = enumerate_scripts("HeartMonMC", MC % dict(h="1", gen="TRUE", b=tier(5, 6), mx="0,1,2", a="0,1,2,3", props="INVARIANT Emit"), timeout=900)
    scripts += generate_scripts("HeartMonMC", MC % dict(h="1,2,3", gen="TRUE", b=9, mx="0,1,2,3", a="0,1,2,3,4", props="INVARIANT Emit\nCHECK_DEADLOCK FALSE"), tier(60, 2000), 40, SEED, cap=tier(600, 20000))
    with vlib.Scratch("hm") as d:
        sp = os.path.join(d, "scripts.ndjson")
        with open(sp, "w") as f:
            f.writelines(json.dumps(s) + "\n" for s in scripts)
        a = harness("h_heart.py", ["script", SEED, 0, sp], d, name="a.ndjson")
        b = harness("h_heart.py", ["random", SEED, tier(1500, 20000)], d, name="b.ndjson")
    traces = a + b
    verdicts, stats = vlib.validate_traces("HeartMonTrace", traces, "CONSTANT Hearts = {1,2,3,4,5}", timeout=1500)
    finish(prop, t0, mc, traces, verdicts, stats, extra_cov={"spec_generated_scripts": len(scripts), "event_kinds": count_kinds(traces)},
           assumptions=["one heart: every answer pattern of the bounded length; several hearts: sampled"])
