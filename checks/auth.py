from common import *
MC = """SPECIFICATION Spec
CONSTANTS Genuine = {%(g)s} Forged = {8} Careful = {"task","hub","engine","client"} MaxForged = %(f)d
INVARIANTS NoEffect InOrder Done
CHECK_DEADLOCK FALSE
"""


def run(prop):
    t0 = time.time()
    mc = vlib.model_check("AuthMC", MC % dict(g="1,2", f=tier(2, 3)), timeout=1500)
    # the specification tells the difference: without any one of the checks, the intruder has an effect
    for who in ("hub", "engine", "client"):
        with vlib.Scratch("au") as d:
            rc, out = vlib.tlc("AuthMC", (MC % dict(g="1", f=1)).replace(f'"{who}",', "").replace(f',"{who}"', ""), d, workers=2, timeout=300)
            if "is violated" not in out:
                raise MachineryError(f"the model does not need {who} to check signatures")
    with vlib.Scratch("auth") as d:
        jobs = [("client", "direct,lb,bcast,churn,out,abort,table", SEED * 1000 + 700 + i, tier(110, 1500)) for i in range(5)]
        jobs += [("ret", "plain,churn,plain", SEED * 1000 + 750 + i, tier(110, 1500)) for i in range(3)]
        got = {"client": [], "ret": []}
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for j, t in zip(jobs, ex.map(lambda j: harness("h_auth.py", [j[0], j[2], j[3], j[1]], d, name=f"{j[0]}{j[2]}.ndjson", timeout=1500), jobs)):
                got[j[0]] += t
    traces, verdicts, states = [], [], 0
    for w, spec in (("client", "ClientTrace"), ("ret", "RetrievalTrace")):
        v, st = vlib.validate_traces(spec, got[w], "", timeout=1500)
        traces += got[w]
        # whatever the specification of the whole system does not allow, somebody without the key may have brought about
        verdicts += [[("X01",) + tuple(x[1:]) if any(e["k"] == "forge" for e in t["ev"][:int(x[1]) if str(x[1]).isdigit() else None]) else x for x in tags]
                     for t, tags in zip(got[w], v)]
        states += st["states"]
    kinds = count_kinds(traces)
    if kinds.get("forge", 0) < 500:
        raise MachineryError(f"hardly anything was forged: {kinds}")
    finish(prop, t0, mc, traces, verdicts, {"states": states}, extra_cov={"event_kinds": kinds},
           assumptions=["clients, controller and engines run in one process over a simulated network", "messages are signed by HMAC (no CurveZMQ)",
                        "the intruder reads everything but does not resend genuine messages as they are, and does not reuse a signature before the genuine message has arrived"])
