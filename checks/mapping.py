from common import *
MC = """SPECIFICATION Spec
CONSTANTS MaxN = %(n)d MaxQ = %(q)d MaxLim = %(l)d Gen = %(gen)s
%(props)s
"""
PR = "INVARIANTS Bounded Once InOrder Complete NoneSkipped\nPROPERTY Ends"
PROFS = {"C07": "direct,lb,bcast,churn", "C08": "lazy,lazy,churn"}


def run(prop):
    t0 = time.time()
    n = list(PROFS).index(prop) + 1
    mc = vlib.model_check("MappingMC", MC % dict(n=tier(4, 5), q=tier(5, 9), l=tier(3, 4), gen="FALSE", props=PR), timeout=1500)
    scripts = []
    if prop == "C08":
        for k, lim in ((3, 2), (5, 3), (6, 3)):
            scripts += generate_scripts("MappingMC", MC % dict(n=k, q=2, l=lim, gen="TRUE", props="INVARIANT Emit\nCHECK_DEADLOCK FALSE"),
                                        tier(400, 4000), 60, SEED * 10 + n + k, cap=tier(200, 2000))
    with vlib.Scratch("mp") as d:
        parts = []
        jobs = [("random", ["random", SEED * 1000 + n * 10 + i, tier(250, 2500), PROFS[prop]], f"r{i}.ndjson") for i in range(tier(6, 8))]
        if scripts:
            sp = os.path.join(d, "scripts.ndjson")
            with open(sp, "w") as fo:
                fo.writelines(json.dumps(s) + "\n" for s in scripts)
            jobs.append(("script", ["script", SEED * 10 + n, 0, sp], "s.ndjson"))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for t in ex.map(lambda j: harness("h_map.py", j[1], d, name=j[2], timeout=1500), jobs):
                parts += t
    verdicts, stats = vlib.validate_traces("MappingTrace", parts, "", timeout=1500)
    finish(prop, t0, mc, parts, verdicts, stats, extra_cov={"spec_generated_scripts": len(scripts), "event_kinds": count_kinds(parts)},
           assumptions=["client, controller and engines run in one process over a simulated network: messages of one connection stay in order, "
                        "all other interleavings are drawn at random", "the thread that feeds a lazy map is run to its next wait whenever it can run"])
