from common import *
MC = """SPECIFICATION Spec
CONSTANTS MaxArgs = %(a)d MaxKids = %(k)d Gen = %(gen)s
%(props)s
CHECK_DEADLOCK FALSE
"""


def run(prop):
    t0 = time.time()
    mc = vlib.model_check("WireMC", MC % dict(a=2, k=tier(2, 3), gen="FALSE", props="INVARIANTS RoundTrip Split"), timeout=1500)
    scripts = generate_scripts("WireMC", MC % dict(a=3, k=3, gen="TRUE", props="INVARIANT Emit"), tier(1500, 15000), 10, SEED * 10 + 1, cap=tier(1200, 12000))
    with vlib.Scratch("wire") as d:
        jobs = [("random", ["random", SEED * 1000 + i, tier(600, 12000)], f"r{i}.ndjson") for i in range(8)]
        for i in range(4):
            sp = os.path.join(d, f"scripts{i}.ndjson")
            with open(sp, "w") as fo:
                fo.writelines(json.dumps(s) + "\n" for s in scripts[i::4])
            jobs.append(("script", ["script", SEED * 10 + i, 0, sp], f"s{i}.ndjson"))
        parts = []
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for t in ex.map(lambda j: harness("h_wire.py", j[1], d, name=j[2], timeout=1500), jobs):
                parts += t
    verdicts, stats = vlib.validate_traces("WireTrace", parts, "", timeout=1500)
    finish(prop, t0, mc, parts, verdicts, stats, extra_cov={"spec_generated_scripts": len(scripts), "event_kinds": count_kinds(parts)},
           assumptions=["values are compared by kind, type and content (arrays: dtype up to byte order, shape and bytes); functions by name, documentation, "
                        "annotations and what they return about the values they hold", "sender and receiver are one process; what is sent is copied to bytes in between"])
