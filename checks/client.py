from common import *
MC = """SPECIFICATION Spec
CONSTANTS Engines = {%(e)s} MaxF = %(f)d MaxKill = %(k)d Gen = %(gen)s
%(props)s
"""
PR = "INVARIANTS AllJustified Answered\nPROPERTIES OnceForGood Ordered"
# what a check looks at most
PROFS = {"C01": "direct,lb,bcast,churn,churn", "C02": "direct,lb,bcast,churn", "C03": "direct,bcast,churn,abort", "C04": "table,table,churn",
         "C05": "out,out,bcast,churn", "C09": "abort,abort,churn", "E01": "direct,out,abort,churn"}


def run(prop):
    t0 = time.time()
    n = list(PROFS).index(prop) + 1
    mc = vlib.model_check("ClientMC", MC % dict(e=tier("1,2", "1,2,3"), f=tier(3, 4), k=2, gen="FALSE", props=PR), timeout=1500)
    scripts = []
    for e, f in (("1,2", 4), ("1,2,3", 6)):
        scripts += generate_scripts("ClientMC", MC % dict(e=e, f=f, k=2, gen="TRUE", props="INVARIANT Emit\nCHECK_DEADLOCK FALSE"),
                                    tier(150, 1500), 70, SEED * 10 + n + f, cap=tier(100, 1500))
    with vlib.Scratch("cl") as d:
        parts = []
        jobs = [(["random", SEED * 1000 + n * 10 + i, tier(220, 2000), PROFS[prop]], f"r{i}.ndjson") for i in range(tier(4, 8))]
        sp = os.path.join(d, "scripts.ndjson")
        with open(sp, "w") as fo:
            fo.writelines(json.dumps(s) + "\n" for s in scripts)
        jobs.append((["script", SEED * 10 + n, 0, sp], "s.ndjson"))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for t in ex.map(lambda j: harness("h_client.py", j[0], d, name=j[1], timeout=1500), jobs):
                parts += t
    verdicts, stats = vlib.validate_traces("ClientTrace", parts, "", timeout=1500)
    finish(prop, t0, mc, parts, verdicts, stats, extra_cov={"spec_generated_scripts": len(scripts), "event_kinds": count_kinds(parts)},
           assumptions=["client, controller and engines run in one process over a simulated network: messages of one connection stay in order, "
                        "all other interleavings are drawn at random", "the code that runs on engines is a stand-in that records its runs"])
