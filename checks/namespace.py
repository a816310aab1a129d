from common import *
MC = """SPECIFICATION Spec
CONSTANTS Engines = %(e)s Names = {"a", "b"} MaxO = %(o)d MaxClr = 1 Gen = %(gen)s
%(props)s
"""
PR = "INVARIANTS Folded NoStrays Reads"
PROFS = {"E02": "direct,direct,churn", "C10": "scatter"}


def run(prop):
    t0 = time.time()
    n = list(PROFS).index(prop) + 1
    mc = vlib.model_check("NamespaceMC", MC % dict(e=tier("{1, 2}" if prop == "E02" else "{1}", "{1, 2}"), o=tier(2 if prop == "E02" else 3, 3), gen="FALSE", props=PR), timeout=1500)
    scripts = []
    if prop == "E02":
        scripts = generate_scripts("NamespaceMC", MC % dict(e="{1, 2, 3}", o=6, gen="TRUE", props="INVARIANT Emit\nCHECK_DEADLOCK FALSE"),
                                   tier(400, 4000), 60, SEED * 10 + n, cap=tier(200, 3000))
    with vlib.Scratch("ns") as d:
        jobs = [("random", ["random", SEED * 1000 + n * 10 + i, tier(220, 3500), PROFS[prop]], f"r{i}.ndjson") for i in range(tier(6, 8))]
        if scripts:
            sp = os.path.join(d, "scripts.ndjson")
            with open(sp, "w") as fo:
                fo.writelines(json.dumps(s) + "\n" for s in scripts)
            jobs.append(("script", ["script", SEED * 10 + n, 0, sp], "s.ndjson"))
        parts = []
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for t in ex.map(lambda j: harness("h_ns.py", j[1], d, name=j[2], timeout=1500), jobs):
                parts += t
    verdicts, stats = vlib.validate_traces("NamespaceTrace", parts, "", timeout=1500)
    finish(prop, t0, mc, parts, verdicts, stats, extra_cov={"spec_generated_scripts": len(scripts), "event_kinds": count_kinds(parts)},
           assumptions=["client, controller and engines run in one process over a simulated network: messages of one connection stay in order, "
                        "all other interleavings are drawn at random", "the interactive shell of an engine is a stand-in that runs code in its user namespace"])
