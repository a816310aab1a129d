"""Generic check: model-check the design, generate environment scripts from the specification,
drive the real code, validate the recorded executions against the specification."""
import json, os, re, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
from vlib import SEED, TIER, tier, MachineryError


def generate_scripts(spec, cfg, num, depth, seed, timeout=300, cap=None):
    """random behaviours of the specification; returns the environment part of each as a dict"""
    with vlib.Scratch("gen") as d:
        rc, out = vlib.tlc(spec, cfg, d, workers=1, timeout=timeout,
                           extra=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)])
        scripts = []
        for m in re.finditer(r'"SCRIPT (.*?) TPIRCS"', out, re.S):
            txt = m.group(1).replace("\n", "").replace('\\"', '"')
            scripts.append(json.loads(txt))
        if not scripts or rc != 0:
            raise MachineryError(f"no scripts generated by {spec} rc={rc}\n{errtext(out)}")
        uniq = {json.dumps(s, sort_keys=True): s for s in scripts}
        res = list(uniq.values())
        if cap and len(res) > cap:
            import random
            res = random.Random(seed).sample(res, cap)
        return res


def enumerate_scripts(spec, cfg, timeout=300, workers=8):
    """all environment scripts of the bounded specification (breadth-first)"""
    with vlib.Scratch("enum") as d:
        rc, out = vlib.tlc(spec, cfg, d, workers=workers, timeout=timeout)
        if rc != 0:
            raise MachineryError(f"enumeration {spec} rc={rc}\n{errtext(out)}")
        scripts = []
        for m in re.finditer(r'"SCRIPT (.*?) TPIRCS"', out, re.S):
            scripts.append(json.loads(m.group(1).replace("\n", "").replace('\\"', '"')))
        uniq = {json.dumps(s, sort_keys=True): s for s in scripts}
        st = vlib.tlc_stats(out)
        return [uniq[k] for k in sorted(uniq)], st


def harness(script, args, scratch, timeout=600, name="trace.ndjson", extra_env=None):
    out = os.path.join(scratch, name)
    p = vlib.run_harness(script, [out, *args], timeout=timeout, extra_env=extra_env)
    if p.returncode != 0:
        # an exception that the code under test let out where the harness only uses it as its users do
        frames = re.findall(r'^  File "(.*?)", line (\d+), in (\S+)', p.stderr, re.M)
        ours = [f[0].startswith(os.path.join(vlib.ROOT, "harness")) for f in frames]
        after = frames[len(ours) - ours[::-1].index(True):] if True in ours else []
        if any(f[0].startswith(os.path.join(vlib.REPO, "ipyparallel") + os.sep) for f in after):
            raise CodeRaised(dict(harness=script, args=[str(a) for a in args], frames=frames[-6:], stderr=p.stderr[-3000:]))
        raise MachineryError(f"harness {script} {args} exit {p.returncode}\n{p.stdout[-1500:]}\n{p.stderr[-3000:]}")
    return [json.loads(l) for l in open(out) if l.strip()]


class CodeRaised(Exception):
    """the code under test raised what nobody expects of it"""


def load_known():
    p = os.path.join(vlib.ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def finish(prop, t0, mc, traces, verdicts, stats, level="model_checking", note=None, assumptions=None,
           extra_cov=None, describe=None):
    """decide, write evidence, print verdict, exit"""
    known = load_known()
    bad = []
    seen_known = {}
    for i, tags in enumerate(verdicts):
        for tg in tags:
            if tg[0] not in (prop, "*"):
                continue
            k = match_known(known, prop, traces[i], tg)
            if k is not None:
                seen_known[k["id"]] = k
                continue
            bad.append((i, tg))
    for k in known:
        if k.get("property") == prop and k["id"] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    nt = len(traces)
    sample = traces[0]
    short = dict(sample)
    short["ev"] = sample["ev"][:12]
    cov = dict(states=mc.get("states", 0) + 0, transitions=mc.get("transitions", 0),
               traces_validated_against_impl=nt,
               events_validated=sum(len(t["ev"]) for t in traces),
               trace_states=stats.get("states", 0),
               samples=[short])
    if extra_cov:
        cov.update(extra_cov)
    vlib.write_evidence(prop, level, cov, time.time() - t0, violations=len(bad), assumptions=assumptions)
    if bad:
        i, tg = bad[0]
        at = int(tg[1]) if len(tg) > 1 and str(tg[1]).isdigit() else 0
        path = vlib.replay_path(prop, {"property": prop, "clause": tg[2] if len(tg) > 2 else "", "event": at,
                                       "violations": len(bad), "trace": traces[i]})
        for j, (i2, tg2) in enumerate(bad[:5]):
            print(f"  trace {i2}: {'@'.join(map(str, tg2))}")
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    print(f"OK property={prop} traces={nt} events={cov['events_validated']} model_states={cov['states']} wall={time.time()-t0:.1f}s")
    sys.exit(0)


def count_kinds(traces):
    kinds = {}
    for t in traces:
        for e in t["ev"]:
            kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    return kinds


def match_known(known, prop, trace, tg):
    for k in known:
        if k.get("property") == prop and k.get("clause") == (tg[2] if len(tg) > 2 else "") and \
                k.get("match", {}).items() <= trace.get("cfg", {}).items():
            return k
    return None


def errtext(out):
    i = out.find("Error:")
    return out[i:i + 1500] if i >= 0 else out[-1500:]
