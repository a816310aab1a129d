from common import *
MC = """SPECIFICATION Spec
CONSTANTS MaxC = %(c)d MaxN = %(n)d MaxOps = %(ops)d Gen = %(gen)s Torn = %(torn)s
%(props)s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANTS FileRight Orphans AtRest"


def run(prop):
    t0 = time.time()
    mc = vlib.model_check("ClusterMC", MC % dict(c=3, n=2, ops=tier(8, 10), gen="FALSE", torn="FALSE", props=INV), timeout=1500)
    # the specification tells the difference: with a file that is written in place, a crash leaves processes that nobody manages
    with vlib.Scratch("cl") as d:
        rc, out = vlib.tlc("ClusterMC", MC % dict(c=2, n=1, ops=4, gen="FALSE", torn="TRUE", props=INV), d, workers=2, timeout=300)
        if "Orphans is violated" not in out:
            raise MachineryError("the model does not need the file to be written in one step")
    scripts = generate_scripts("ClusterMC", MC % dict(c=6, n=3, ops=9, gen="TRUE", torn="FALSE", props="INVARIANT Emit"), tier(400, 4000), 60, SEED * 10 + 8, cap=tier(150, 3000))
    with vlib.Scratch("clu") as d:
        jobs = [(["random", SEED * 1000 + 800 + i, tier(130, 6000), "plain,calm,hard,plain,hard"], f"r{i}.ndjson") for i in range(7)]
        sp = os.path.join(d, "scripts.ndjson")
        with open(sp, "w") as fo:
            fo.writelines(json.dumps(s) + "\n" for s in scripts)
        jobs.append((["script", SEED * 10 + 8, 0, sp], "s.ndjson"))
        parts = []
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for t in ex.map(lambda j: harness("h_cluster.py", j[0], d, name=j[1], timeout=1500), jobs):
                parts += t
    verdicts, stats = vlib.validate_traces("ClusterTrace", parts, "", timeout=1500)
    finish(prop, t0, mc, parts, verdicts, stats, extra_cov={"spec_generated_scripts": len(scripts), "event_kinds": count_kinds(parts)},
           assumptions=["processes, signals, waiting and time are simulated; the launchers are the local ones",
                        "one object at a time starts components; a second one that read the file only stops and signals",
                        "process ids are not reused"])
