from common import *
CONST = "CONSTANTS Tasks = {%s} Engines = {1,2,3,4,5,6,7,8} GraceMin = 2 GraceMax = 10" % ",".join(map(str, range(1, 15)))
MC = """SPECIFICATION %(spec)s
CONSTANTS Tasks = {%(tasks)s} Engines = {%(eng)s} GraceMin = 2 GraceMax = 10 HWM = {%(hwm)s} Gen = %(gen)s MaxOps = %(ops)d MaxNow = %(now)d Rich = %(rich)s
%(props)s
"""
INV = {"T01": ("", "OnlyWhenMet"), "T02": ("NeverLost", "AnswerOnce NotRunAfterReply"), "T03": ("CapOK NeverLost", ""),
       "T04": ("RetryBound", "AnswerOnce"), "T05": ("NeverLost", "AnswerOnce"), "T06": ("TypeOK", "OnlyWhenMet"), "T07": ("TypeOK NeverLost", "")}
LIVE = {"T02", "T05"}
PROFILES = {"T01": "deps,follow,deps,follow,retry,mixed,cascade", "T02": "", "T03": "queue,queue,mixed,deps,retry,death",
            "T04": "retry,retry,retry,death,mixed", "T05": "cascade,deps,follow,timeouts,death,cascade,mixed",
            "T06": "death,death,death,retry", "T07": "queue,queue,deps,retry,mixed,cascade"}


def run(prop):
    t0 = time.time()
    inv, pr = INV[prop]
    live = prop in LIVE
    props = ("INVARIANTS TypeOK " + inv + "\n") + (f"PROPERTIES {pr} {'StepsEnd' if live else ''}\n" if pr or live else "")
    mc = vlib.model_check("TaskSchedMC", MC % dict(spec="FairSpec" if live else "Spec", tasks="1,2,3", eng="1,2", hwm="0,1",
                          gen="FALSE", ops=tier(4, 5), now=4, rich="FALSE", props=props), timeout=tier(300, 1500))
    off = int(prop[1:])
    scripts = generate_scripts("TaskSchedMC", MC % dict(spec="Spec", tasks="1,2,3,4,5", eng="1,2,3", hwm="0,1,2", gen="TRUE",
                               ops=14, now=200, rich="TRUE", props="INVARIANT Emit\nCHECK_DEADLOCK FALSE"), tier(150, 1500), 60, SEED * 100 + off, timeout=600)
    with vlib.Scratch("ts") as d:
        sp = os.path.join(d, "scripts.ndjson")
        with open(sp, "w") as f:
            f.writelines(json.dumps(s) + "\n" for s in scripts)
        a = harness("h_tasksched.py", ["script", SEED, 0, sp], d, name="a.ndjson")
        b = harness("h_tasksched.py", ["random", SEED * 100 + off, tier(1500, 20000), PROFILES[prop]], d, name="b.ndjson", timeout=1500)
    traces = a + b
    verdicts, stats = vlib.validate_traces("TaskSchedTrace", traces, CONST, timeout=1500)
    kinds = {}
    for t in traces:
        for e in t["ev"]:
            k = e["k"] + (":" + e.get("r", e.get("n", "")) if e["k"] in ("result", "reply") else "")
            kinds[k] = kinds.get(k, 0) + 1
    finish(prop, t0, mc, traces, verdicts, stats,
           extra_cov={"spec_generated_scripts": len(scripts), "event_kinds": kinds,
                      "model": "3 tasks, 2 engines, hwm in {0,1}, %d inputs" % tier(4, 5)},
           assumptions=["engines answer each request at most once", "an engine lost and its results are seen through the scheduler's streams (stubbed sockets, virtual clock)"])
