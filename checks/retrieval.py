from common import *
MC = """SPECIFICATION Spec
CONSTANTS MaxR = %(r)s MaxAsk = %(a)s Gen = %(gen)s
%(props)s
"""


def run(prop):
    t0 = time.time()
    mc = vlib.model_check("RetrievalMC", MC % dict(r=2, a=tier(2, 3), gen="FALSE", props="INVARIANTS Right Truth Purged"), timeout=1500)
    scripts = generate_scripts("RetrievalMC", MC % dict(r=5, a=6, gen="TRUE", props="INVARIANT Emit\nCHECK_DEADLOCK FALSE"), tier(400, 4000), 60, SEED * 10 + 6, cap=tier(200, 3000))
    with vlib.Scratch("ret") as d:
        jobs = [("random", ["random", SEED * 1000 + 600 + i, tier(130, 3000), "plain,churn,plain"], f"r{i}.ndjson") for i in range(7)]
        sp = os.path.join(d, "scripts.ndjson")
        with open(sp, "w") as fo:
            fo.writelines(json.dumps(s) + "\n" for s in scripts)
        jobs.append(("script", ["script", SEED * 10 + 6, 0, sp], "s.ndjson"))
        parts = []
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for t in ex.map(lambda j: harness("h_ret.py", j[1], d, name=j[2], timeout=1500), jobs):
                parts += t
    verdicts, stats = vlib.validate_traces("RetrievalTrace", parts, "", timeout=1500)
    finish(prop, t0, mc, parts, verdicts, stats, extra_cov={"spec_generated_scripts": len(scripts), "event_kinds": count_kinds(parts)},
           assumptions=["clients, controller and engines run in one process over a simulated network: messages of one connection stay in order, "
                        "all other interleavings are drawn at random", "broadcast requests are not reported to the hub and cannot be retrieved: they are left out"])
