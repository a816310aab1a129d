"""Shared machinery: run TLC (model checking, behaviour generation, trace validation),
write evidence, report violations.  Pure stdlib; runs under any python3."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(ROOT, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
VENV = "/opt/venv/bin/python"


def tier(q, t):
    return t if TIER == "thorough" else q


class Scratch:
    """Scratch directory removed at exit."""

    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix=f"vf_{tag}_")

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def py_env(extra=None):
    env = dict(os.environ)
    env.update(IPP_DISABLE_JS="1", JUPYTER_PLATFORM_DIRS="1", MPLBACKEND="agg",
               PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0",
               LANG="C.UTF-8", PYTHONPATH=REPO + os.pathsep + os.path.join(ROOT, "harness"),
               IPP_VERIF="1")
    env.update(extra or {})
    return env


def run_harness(script, args=(), timeout=600, extra_env=None, cwd=None):
    """Run a harness script under the repo's venv, importing ipyparallel from /repo.
    The harness gets a private HOME/IPYTHONDIR in scratch."""
    home = tempfile.mkdtemp(prefix="vf_home_")
    env = py_env({"HOME": home, "IPYTHONDIR": os.path.join(home, ".ipython")})
    env.update(extra_env or {})
    try:
        p = subprocess.run([VENV, "-X", "faulthandler", os.path.join(ROOT, "harness", script), *map(str, args)],
                           cwd=cwd or home, env=env, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return p
    finally:
        shutil.rmtree(home, ignore_errors=True)


def tlc(spec, cfg_text, workdir, workers=8, extra=(), timeout=800, heap="6g", files=()):
    """Run TLC on specs/<spec>.tla with the given cfg in workdir. Returns (rc, output)."""
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            dst = os.path.join(workdir, f)
            if not os.path.exists(dst):
                shutil.copy(os.path.join(SPECS, f), dst)
    cfg = os.path.join(workdir, spec + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    meta = tempfile.mkdtemp(prefix="meta_", dir=workdir)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-config", cfg, "-noGenerateSpecTE", *extra, spec + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = -9, (e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or "")) + "\nTIMEOUT"
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out.replace(",", ""))
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"number of states generated: (\d+)", out.replace(",", ""))
    return (int(m[-1]), 0) if m else (0, 0)


class MachineryError(Exception):
    pass


def model_check(spec, cfg, workers=8, timeout=800, extra=(), expect_ok=True, heap="6g"):
    """Exhaustively model-check a design-level config.  Design errors are machinery errors
    (the specification does not depend on /repo)."""
    with Scratch("mc") as d:
        rc, out = tlc(spec, cfg, d, workers=workers, timeout=timeout, extra=extra, heap=heap)
        gen, dist = tlc_stats(out)
        if rc != 0:
            raise MachineryError(f"model checking {spec} failed rc={rc}\n{out[-4000:]}")
        return dict(spec=spec, states=dist, transitions=gen)


def tla_json(x):
    """dump with only TLA-friendly values (no null / floats)"""
    return json.dumps(x, separators=(",", ":"))


def validate_traces(spec, traces, consts="", workers=8, timeout=800, heap="8g", invariants=()):
    """traces: list of {"id":..., "cfg": {...}, "ev": [ {...} ]}.
    The trace spec reads traces.ndjson (one trace per line) and, being total, prints for every
    trace exactly one line  "VERDICT index events tags END".
    Returns per trace a list of (tag, event index, detail), and statistics.
    A trace with values for which the specification has no meaning at all (TLC cannot evaluate them)
    is no behaviour of it: it gets the tag "*", for whatever property is being checked."""
    if not traces:
        raise MachineryError("no traces to validate")
    cfg = ("SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nCONSTANT TraceFile = \"traces.ndjson\"\n" + consts +
           "".join(f"\nINVARIANT {i}" for i in invariants) + "\n")

    def validate(ts):
        with Scratch("tv") as d:
            with open(os.path.join(d, "traces.ndjson"), "w") as f:
                for t in ts:
                    f.write(tla_json(t) + "\n")
            return tlc(spec, cfg, d, workers=workers, timeout=timeout, heap=heap)
    left = list(range(len(traces)))
    odd = {}
    while True:
        rc, out = validate([traces[i] for i in left])
        if rc == 0:
            break
        m = re.search(r"/\\ ti = (\d+)", out[out.find("Error:"):])
        bad = None
        if rc != -9 and m and len(odd) < 4:
            bad = left[int(m.group(1)) - 1]
            rc1, out1 = validate([traces[bad]])
        if bad is None or rc1 in (0, -9) or not re.search(r"Attempted to|evaluat|In (applying|computing)", out1):
            i = out.find("Error:")
            raise MachineryError(f"trace validation {spec} rc={rc}\n{out[i:i+1500]}\n...\n{out[-1500:]}")
        n = re.search(r"State (\d+):(?!.*State \d+:)", out1, re.S)
        odd[bad] = [("*", n.group(1) if n else "0", "the specification has no meaning for this")]
        left.remove(bad)
        if not left or len(odd) == 4:
            return [odd.get(i, []) for i in range(len(traces))], dict(states=0, transitions=0)
    gen, dist = tlc_stats(out)
    verdicts = {}
    for m in re.finditer(r'"VERDICT ([^"]*?) END"', out, re.S):
        txt = m.group(1).replace("\n", "")
        idx, nev, js = txt.split(" ", 2)
        verdicts[left[int(idx) - 1]] = (int(nev), js)
    if len(verdicts) != len(left):
        raise MachineryError(f"{spec}: {len(verdicts)} verdicts for {len(left)} traces\n{out[-3000:]}")
    res = []
    for i, t in enumerate(traces):
        if i in odd:
            res.append(odd[i])
            continue
        nev, js = verdicts[i]
        if nev != len(t["ev"]):
            raise MachineryError(f"{spec}: trace {i} consumed {nev} of {len(t['ev'])} events")
        tags = [] if js == "-" else [tuple(x.split("@")) for x in js.split(";") if x]
        res.append(tags)
    return res, dict(states=dist, transitions=gen)


def write_evidence(prop, level, coverage, wall, violations=0, assumptions=None, tier_=None, extra=None):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier_ or TIER, seed=SEED, level=level, coverage=coverage,
              wall_s=round(wall, 2))
    if violations:
        ev["violations"] = violations
    if assumptions:
        ev["assumptions"] = assumptions
    ev.update(extra or {})
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")


def replay_path(prop, payload):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}.json")
    with open(p, "w") as f:
        json.dump(payload, f, indent=1, default=str)
        f.write("\n")
    return p
