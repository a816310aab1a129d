"""Drive the real TaskScheduler through its streams and record traces (ndjson).
usage: h_tasksched.py OUT MODE SEED COUNT [SCRIPTS]
 MODE random | script"""
import json, random, sys
from fakes import *
clock = Clock().install()
import zmq
from jupyter_client.session import Session
from ipyparallel.controller import task_scheduler as ts
from ipyparallel import error

UNKNOWN = 99


class Sim:
    def __init__(self, hwm, scheme):
        self.ev = []
        self.cfg = {"hwm": hwm, "scheme": scheme}
        clock.t = clock.t0
        self.loop = FakeLoop(clock)
        mk = lambda n: FakeStream(n, self.sent)
        self.streams = {n: mk(n) for n in ("client", "engine", "mon", "notif", "query")}
        s = self.streams
        self.sess = Session(key=b"")
        from traitlets.config import Config
        c = Config()
        c.TaskScheduler.hwm = hwm
        c.TaskScheduler.scheme_name = scheme
        c.Session.key = b""
        self.sched = ts.TaskScheduler(client_stream=s["client"], engine_stream=s["engine"],
                                      mon_stream=s["mon"], notifier_stream=s["notif"],
                                      query_stream=s["query"], loop=self.loop, config=c)
        self.running = {}   # t -> engine (from observed runs)
        self.requests = {}  # t -> (header, raw payload)
        self.replied = {}
        self.tag = 0
        self.results = {}   # tag -> (t, e)
        self.live = []
        self.dead = []
        self.deadtime = {}
        self.now = 0
        self.njobs = 0
        self.neng = 0
        self.clients = {}
        self.sched.start()

    # ---- outputs -------------------------------------------------------
    def sent(self, name, frames):
        if name == "query":
            return
        if name == "engine":
            e = int(frames[0][1:]) if frames[0][:1] == b"e" and frames[0][1:].isdigit() else 0
            idents, msg = self.sess.feed_identities(frames[1:])
            m = self.sess.deserialize(msg, content=True)
            t = int(m["header"]["msg_id"][1:])
            ok = (frames[1:] == self.requests[t]) if t in self.requests else False
            self.running[t] = e
            self.ev.append({"k": "run", "t": t, "e": e, "ok": ok})
        elif name == "client":
            idents, msg = self.sess.feed_identities(frames)
            m = self.sess.deserialize(msg, content=True)
            t = int(m["parent_header"]["msg_id"][1:])
            c = m["content"]
            s = "ok" if c.get("status") == "ok" else "err"
            tag = c.get("vtag", 0)
            src = 0
            if len(idents) > 1 and idents[1][:1] == b"e":
                src = int(idents[1][1:])
            n = c.get("ename", "ok") if s == "err" else "ok"
            bufs = [bytes(b) for b in m["buffers"]]
            if tag and bufs != [b"buf%d" % tag]:
                tag = -1
            if tag and m["metadata"].get("vtag") != tag:
                tag = -2
            self.replied[t] = n
            self.running.pop(t, None)
            self.ev.append({"k": "reply", "t": t, "client": int(idents[0][1:]) if idents else 0,
                            "s": s, "n": n, "src": src, "tag": tag})
        elif name == "mon":
            kind = frames[0]
            if kind == b"tracktask":
                idents, msg = self.sess.feed_identities(frames)
                c = self.sess.deserialize(msg, content=True)["content"]
                self.ev.append({"k": "mon", "m": "dest", "t": int(c["msg_id"][1:]), "e": int(c["engine_id"][1:])})
            elif kind == b"intask":
                idents, msg = self.sess.feed_identities(frames[1:])
                m = self.sess.deserialize(msg)
                self.ev.append({"k": "mon", "m": "intask", "t": int(m["header"]["msg_id"][1:]), "e": 0})
            elif kind == b"outtask":
                idents, msg = self.sess.feed_identities(frames[1:])
                m = self.sess.deserialize(msg)
                self.ev.append({"k": "mon", "m": "outtask", "t": int(m["parent_header"]["msg_id"][1:]), "e": 0})

    # ---- inputs --------------------------------------------------------
    def end(self):
        self.ev.append({"k": "end"})

    def call(self, f):
        try:
            f()
        except Exception as e:
            self.loop.errors.append(repr(e))

    def notify(self, typ, e):
        eid = int(e)
        msg = self.sess.msg(typ, content={"id": eid, "uuid": "e%d" % e})
        frames = self.sess.serialize(msg, ident=[typ.encode()])
        self.call(lambda: self.streams["notif"].deliver(frames))

    def reg(self, e=None, buffered=False, viaquery=False):
        if e is None:
            self.neng += 1
            e = self.neng
            self.live.append(e)

        def do():
            self.ev.append({"k": "reg", "e": e})
            if viaquery:
                msg = self.sess.msg("connection_reply", content={"status": "ok", "engines": {str(x): "e%d" % x for x in (self.live if viaquery == "all" else [e])}})
                self.call(lambda: self.streams["query"].deliver(self.sess.serialize(msg)))
            else:
                self.notify("registration_notification", e)
        if buffered:
            self.streams["notif"].inbox.append(do)
        else:
            do()
            self.end()
        return e

    def unreg(self, e, buffered_results=()):
        for (t, r) in buffered_results:
            self.streams["engine"].inbox.append(lambda t=t, r=r: self.result(t, e, r, end=False))
        if e in self.live:
            self.live.remove(e)
            self.dead.append(e)
            self.deadtime[e] = self.now
        self.ev.append({"k": "unreg", "e": e})
        self.notify("unregistration_notification", e)
        self.end()
        # whatever is still in the socket buffer arrives afterwards
        while self.streams["engine"].inbox:
            self.streams["engine"].inbox.pop(0)()
            self.end()

    def submit(self, after, follow, targets, retries, timeout, client=1):
        self.njobs += 1
        t = self.njobs

        def dep(d):
            return {"dependencies": ["t%d" % i for i in d["ids"]], "all": d["all"], "success": d["s"], "failure": d["f"]}
        md = {}
        if after["ids"] or after.get("raw"):
            md["after"] = dep(after)
        if follow["ids"] or follow.get("raw"):
            md["follow"] = dep(follow)
        if targets:
            md["targets"] = ["e%d" % i for i in targets]
        if retries or t % 2:
            md["retries"] = retries
        if timeout or t % 3 == 0:
            md["timeout"] = timeout
        h = self.sess.msg_header("apply_request")
        h["msg_id"] = "t%d" % t
        msg = self.sess.msg("apply_request", content={"f": t}, header=h, metadata=md)
        frames = self.sess.serialize(msg, ident=[b"c%d" % client]) + [b"payload%d" % t]
        self.requests[t] = frames
        clean = lambda d: {k: d[k] for k in ("ids", "all", "s", "f")}
        # notifications waiting in the socket are due to be seen before the submission
        inbox, self.streams["notif"].inbox = self.streams["notif"].inbox, []
        for f in inbox:
            self.streams["notif"].inbox.append(f)
        self.ev.append({"k": "submit", "t": t, "after": clean(after), "follow": clean(follow), "targets": list(targets),
                        "retries": retries, "timeout": timeout, "client": client})
        clock.t += 0.001
        self.call(lambda: self.streams["client"].deliver(frames))
        self.end()
        while self.streams["notif"].inbox:
            self.streams["notif"].inbox.pop(0)()
            self.end()
        return t

    def result(self, t, e, r, end=True, keep=False):
        self.tag += 1
        tag = self.tag
        parent = {"msg_id": "t%d" % t, "msg_type": "apply_request", "session": "x", "username": "u", "date": "2020"}
        if r == "ok":
            content = {"status": "ok", "vtag": tag}
            md = {"status": "ok", "vtag": tag}
        elif r == "err":
            content = {"status": "error", "ename": "ValueError", "evalue": "x", "traceback": [], "vtag": tag}
            md = {"status": "error", "vtag": tag}
        elif r == "abort":
            content = {"status": "aborted", "vtag": tag}
            md = {"status": "aborted", "vtag": tag}
        else:
            content = {"status": "error", "ename": "UnmetDependency", "evalue": "x", "traceback": [], "vtag": tag}
            md = {"status": "error", "dependencies_met": False, "vtag": tag}
        if r == "ok" and tag % 2:
            md["dependencies_met"] = True
        msg = self.sess.msg("apply_reply", content=content, parent=parent, metadata=md)
        frames = self.sess.serialize(msg, ident=[b"e%d" % e, b"c%d" % self.client_of(t)]) + [b"buf%d" % tag]
        self.ev.append({"k": "result", "t": t, "e": e, "r": r, "tag": tag})
        if self.running.get(t) == e:
            del self.running[t]
        self.call(lambda: self.streams["engine"].deliver(frames))
        if end:
            self.end()

    def client_of(self, t):
        for e in self.ev:
            if e["k"] == "submit" and e["t"] == t:
                return e["client"]
        return 1

    def tick(self, dt):
        """advance the clock; small steps must not end inside a grace window"""
        n = self.now + dt
        for e, d in self.deadtime.items():
            if e in self.running.values() and 2 <= n - d < 12:
                n = d + 12
        n = max([n] + [d + 12 for e, d in self.deadtime.items() if e in self.running.values() and 2 <= n - d < 12])
        self.now = n
        self.ev.append({"k": "tick", "now": n})
        before = dict(self.running)
        # the clock runs a little behind (sub-second submission offsets), so go past the mark
        self.loop.fire_until(clock.t0 + n + 0.5)
        self.end()
        for t, e in before.items():
            # strandeds (answered or requeued) are no longer running
            if self.running.get(t) == e and e in self.dead and n - self.deadtime[e] >= 12:
                self.running.pop(t, None)
        clock.t = clock.t0 + n + 0.5


def dump_trace(sim, extra=None):
    d = {"cfg": sim.cfg, "ev": sim.ev}
    return d


NODEP = {"ids": [], "all": True, "s": True, "f": False}


def rand_dep(rng, n, p, cur, weird=0.06):
    if rng.random() > p or n == 0:
        return dict(NODEP)
    k = rng.choice([1, 1, 1, 2, 2, 3])
    ids = rng.sample(range(1, n + 1), min(k, n))
    if rng.random() < weird:
        ids[0] = rng.choice([UNKNOWN, cur])
    s, f = rng.choice([(True, False)] * 5 + [(False, True)] * 2 + [(True, True)] * 2)
    return {"ids": sorted(set(ids)), "all": rng.random() < 0.6, "s": s, "f": f}


def random_trace(rng, profile=None):
    hwm = rng.choice([1, 1, 1, 0, 0, 2, 2, 3])
    scheme = rng.choice(["leastload"] * 6 + ["lru"] * 2 + ["plainrandom", "twobin", "weighted"])
    profile = profile or rng.choice(["mixed", "deps", "deps", "queue", "retry", "death", "follow", "timeouts", "cascade"])
    random.seed(rng.randrange(1 << 30))
    try:
        import numpy
        numpy.random.seed(rng.randrange(1 << 30))
    except ImportError:
        pass
    sim = Sim(hwm, scheme)
    sim.cfg["profile"] = profile
    maxj = rng.randint(4, 14)
    maxe = rng.randint(1, 4)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        sim.reg(viaquery=rng.choice([False, False, True, "all"]))
    pa = {"mixed": .4, "deps": .8, "queue": .15, "retry": .2, "death": .3, "follow": .2, "timeouts": .5, "cascade": .9}[profile]
    pf = {"mixed": .25, "deps": .3, "queue": .1, "retry": .1, "death": .2, "follow": .8, "timeouts": .2, "cascade": .25}[profile]
    pt = {"queue": .3, "retry": .3, "death": .4}.get(profile, .2)
    pr = {"retry": .9, "death": .6, "mixed": .3}.get(profile, .1)
    pto = {"timeouts": .7, "mixed": .1}.get(profile, .05)
    okp = {"cascade": .4, "retry": .3, "deps": .65}.get(profile, .75)
    unm = {"retry": .25, "queue": .15}.get(profile, .06)
    steps = rng.randint(10, 45)
    for _ in range(steps):
        acts = []
        if sim.njobs < maxj:
            acts += ["submit"] * 8
        if sim.running:
            acts += ["result"] * (3 if sim.njobs < maxj and profile in ("queue", "cascade", "deps") else 7)
        if sim.neng < maxe:
            acts += ["reg"] * 2
        if sim.live:
            acts += ["unreg"] * (3 if profile == "death" else 1)
            acts += ["rereg"]
        acts += ["tick"] * (3 if profile in ("death", "timeouts") else 1)
        if sim.dead:
            acts += ["late"] * 2
        a = rng.choice(acts)
        if a == "submit":
            n = sim.njobs
            tg = []
            pool = list(range(1, sim.neng + 1))
            if rng.random() < pt and pool:
                tg = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2])))
            if rng.random() < .1:
                sim.reg(buffered=True) if sim.neng < maxe else None
            sim.submit(rand_dep(rng, n, pa, n + 1), rand_dep(rng, n, pf, n + 1, .03), tg,
                       rng.choice([1, 1, 2, 3]) if rng.random() < pr else 0,
                       rng.choice([3, 30, 60]) if rng.random() < pto else 0, client=rng.choice([1, 2]))
        elif a == "result":
            t = rng.choice(sorted(sim.running))
            x = rng.random()
            sim.result(t, sim.running[t], "ok" if x < okp else ("unmet" if x > 1 - unm else rng.choice(["err"] * 6 + ["abort"])))
        elif a == "reg":
            sim.reg(viaquery=rng.choice([False, False, True]))
        elif a == "rereg":
            sim.reg(rng.choice(sim.live), viaquery=rng.choice([False, True]))
        elif a == "unreg":
            e = rng.choice(sim.live)
            mine = [t for t in sorted(sim.running) if sim.running[t] == e]
            buf = [(t, rng.choice(["ok", "err"])) for t in mine if rng.random() < .3]
            sim.unreg(e, buf)
        elif a == "tick":
            sim.tick(rng.choice([1, 1, 4, 20, 70]))
        elif a == "late":
            e = rng.choice(sim.dead)
            cand = sorted({x["t"] for x in sim.ev if x["k"] == "run" and x["e"] == e})
            # an engine answers each request once: only tasks it never answered for
            done = {x["t"] for x in sim.ev if x["k"] == "result" and x["e"] == e}
            cand = [t for t in cand if t not in done]
            if cand:
                t = rng.choice(cand)
                sim.result(t, e, rng.choice(["ok", "err"]))
    # drain: every engine eventually answers
    guard = 0
    while guard < 80:
        guard += 1
        if sim.running:
            t = rng.choice(sorted(sim.running))
            e = sim.running[t]
            if e in sim.dead:
                sim.tick(20)
                continue
            sim.result(t, e, "ok" if rng.random() < .7 else "err")
        elif guard < 60 and sim.neng < maxe + 2:
            sim.reg()
        else:
            break
    sim.tick(100)
    while sim.running and guard < 120:
        guard += 1
        t = sorted(sim.running)[0]
        if sim.running[t] in sim.dead:
            sim.tick(20)
        else:
            sim.result(t, sim.running[t], "ok")
    return sim


def script_trace(script):
    """interpret a behaviour generated from the specification"""
    cfg = script["cfg"]
    sim = Sim(cfg["hwm"], cfg.get("scheme", "leastload"))
    for op in script["ops"]:
        k = op["k"]
        if k == "submit":
            sim.submit(op["after"], op["follow"], op["targets"], op["retries"], op["timeout"], op.get("client", 1))
        elif k == "result":
            t = op["t"]
            if t in sim.running and (sim.running[t] in sim.live or sim.running[t] in sim.dead):
                sim.result(t, sim.running[t], op["r"])
        elif k == "reg":
            sim.reg()
        elif k == "unreg":
            if op["e"] in sim.live:
                sim.unreg(op["e"])
        elif k == "tick":
            sim.tick(op["d"])
    guard = 0
    while sim.running and guard < 40:
        guard += 1
        t = sorted(sim.running)[0]
        if sim.running[t] in sim.dead:
            sim.tick(20)
        else:
            sim.result(t, sim.running[t], "ok")
    return sim


def main():
    out, mode, seed, count = sys.argv[1:5]
    seed, count = int(seed), int(count)
    with open(out, "w") as f:
        if mode == "random":
            profiles = [x for x in (sys.argv[5] if len(sys.argv) > 5 else "").split(",") if x]
            for i in range(count):
                rng = random.Random(seed * 1000003 + i)
                pr = rng.choice(profiles) if profiles and i % 4 else None
                f.write(json.dumps(dump_trace(random_trace(rng, pr))) + "\n")
        else:
            for line in open(sys.argv[5]):
                line = line.strip()
                if line:
                    f.write(json.dumps(dump_trace(script_trace(json.loads(line)))) + "\n")


if __name__ == "__main__":
    main()
