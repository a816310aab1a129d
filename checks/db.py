from common import *
FIELDS = ["msg_id", "client_uuid", "engine_uuid", "resubmitted", "queue", "stdout", "stderr", "label", "execute_input", "submitted", "started",
          "completed", "received", "header", "metadata", "content", "result_header", "result_metadata", "result_content", "execute_result", "error",
          "buffers", "result_buffers"]
fs = lambda x: "{" + ",".join(f'"{f}"' for f in x) + "}"
MC = """SPECIFICATION Spec
CONSTANTS Fields = %(f)s Gen = %(gen)s MaxOps = %(ops)d MIds = {%(ids)s} Times = {%(t)s} Toks = {%(b)s} RLims = {%(rl)s} BLims = {%(bl)s} Pcts = {%(p)s}
%(props)s
"""
F5 = fs(["msg_id", "submitted", "completed", "buffers", "result_buffers"])
PROFILES = {"D01": "store,store,query,cull", "D02": "query", "D03": "cull"}


def run(prop):
    t0 = time.time()
    lims = dict(rl="99,2", bl="99,3", p="0,50")
    inv = "INVARIANTS InLimits Bytes OrdOk\nPROPERTY OldestGo"
    mc = vlib.model_check("TaskDBMC", MC % dict(f=F5, gen="FALSE", ops=tier(3, 4), ids="1,2,3", t="1,2", b="0,1,2", props=inv, **lims), timeout=1500)
    nolim = dict(rl="99", bl="99", p="50")
    lim = dict(rl="99,1,2,3", bl="99,2,4,7", p="0,25,50,100")
    off = int(prop[1:])
    scripts = generate_scripts("TaskDBMC", MC % dict(f=F5, gen="TRUE", ops=14, ids="1,2,3,4,5,6,7", t="1,2,3,4,5,6", b="0,1,2,3", props="INVARIANT Emit\nCHECK_DEADLOCK FALSE",
                                                     **(lim if prop == "D03" else nolim)), tier(60, 1200), 16, SEED * 10 + off, cap=tier(200, 4000))
    with vlib.Scratch("db") as d:
        sp = os.path.join(d, "scripts.ndjson")
        with open(sp, "w") as f:
            f.writelines(json.dumps(s) + "\n" for s in scripts)
        a = harness("h_db.py", ["script", SEED, "dict" if prop == "D03" else "dict,sqlite", sp], d, name="a.ndjson")
        b = harness("h_db.py", ["random", SEED * 10 + off, tier(1400, 30000), PROFILES[prop]], d, name="b.ndjson", timeout=1500)
    traces = a + b
    verdicts, stats = vlib.validate_traces("TaskDBTrace", traces, f"CONSTANT Fields = {fs(FIELDS)}", timeout=1500)
    finish(prop, t0, mc, traces, verdicts, stats, extra_cov={"spec_generated_scripts": len(scripts), "event_kinds": count_kinds(traces)},
           assumptions=["MongoDB backend not covered (pymongo is not installed)", "a crash is a copy of the database files at a chosen virtual time"])
