"""Drive the real Hub through its streams and record traces (ndjson).
usage: h_hub.py OUT random SEED COUNT | OUT script SEED 0 SCRIPTS"""
import json, os, random, sys, tempfile, shutil
from datetime import datetime, timedelta, timezone
from fakes import *
clock = Clock().install()
import zmq
from jupyter_client.session import Session
from ipyparallel import util
util._disable_session_extract_dates()
from ipyparallel.controller import hub as hubmod
from ipyparallel.controller.dictdb import DictDB
from ipyparallel.controller.sqlitedb import SQLiteDB
from traitlets.config import Config

RT = 5
BASE = datetime(2026, 1, 1, tzinfo=timezone.utc)
SCRATCH = tempfile.mkdtemp(prefix="vf_hub_")


def un(u):
    return "u%d" % u


class Sim:
    count = 0

    def __init__(self, backend, restore=True):
        Sim.count += 1
        self.dir = os.path.join(SCRATCH, str(Sim.count))
        os.mkdir(self.dir)
        self.backend = backend
        self.ev = []
        self.cfg = {"db": backend, "rt": RT}
        clock.t = clock.t0
        self.sess = Session(key=b"")
        self.note = []
        self.sent_resub = []
        self.replies = []
        self.mid = {}      # real msg_id -> number
        self.name = {}     # number -> real msg_id
        self.req = {}      # number -> serialized request (without idents)
        self.nm = 0
        self.lab = 0
        self.errors = 0
        self.open_db()
        self.start_hub()

    # -- set-up
    def open_db(self):
        if self.backend == "dict":
            self.db = DictDB(session="s")
        else:
            self.db = SQLiteDB(location=self.dir, filename="t.db", session="s", table="t")

    def start_hub(self):
        self.loop = FakeLoop(clock)
        mk = lambda n: FakeStream(n, self.sent)
        self.st = {n: mk(n) for n in ("query", "monitor", "notifier", "resubmit")}
        c = Config()
        c.Session.key = b""
        hub_sess = Session(key=b"")
        self.hub = hubmod.Hub(loop=self.loop, session=hub_sess, db=self.db, heartmonitor_period=3000,
                              registration_timeout=RT, engine_info={}, client_info={}, config=c, **self.st)
        self.hub.engine_state_file = os.path.join(self.dir, "engines.json")

    def finish(self):
        if self.backend != "dict":
            try:
                self.db.close()
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- outputs
    def sent(self, name, frames):
        idents, msg = self.sess.feed_identities(frames)
        m = self.sess.deserialize(msg, content=True)
        typ = m["header"]["msg_type"]
        if name == "notifier":
            c = m["content"]
            u = c.get("uuid", "u0")
            self.note.append([{"registration_notification": "reg", "unregistration_notification": "unreg"}.get(typ, typ),
                              c.get("id", -1), int(u[1:])])
        elif name == "query":
            self.replies.append((idents, typ, m))
        elif name == "resubmit":
            self.sent_resub.append((msg, m))

    def add(self, **e):
        e["note"] = self.note
        self.note = []
        self.ev.append(e)

    # -- inputs
    def query(self, typ, content):
        self.replies = []
        m = self.sess.msg(typ, content=content)
        frames = self.sess.serialize(m, ident=[b"client"])
        try:
            self.st["query"].deliver(frames)
        except Exception as ex:
            self.errors += 1
        if len(self.replies) == 1:
            return self.replies[0][2]["content"], self.replies[0][2]
        return None, None

    def mon(self, topic, idents, raw):
        frames = [topic] + list(idents) + list(raw)
        try:
            self.st["monitor"].deliver(frames)
        except Exception as ex:
            self.errors += 1

    def heartframes(self, typ, us):
        m = self.sess.msg(typ, content={"hearts": [un(u) for u in us]})
        return self.sess.serialize(m, ident=[b"heartmonitor", b""])

    def register(self, u, want=-1):
        content = {"uuid": un(u)}
        if want >= 0:
            content["id"] = want
        c, _ = self.query("registration_request", content)
        ok = bool(c and c.get("status") == "ok")
        i = c.get("id", -1) if ok else -1
        self.add(k="reg", u=u, want=want, ok=ok, id=i)
        return i if ok else None

    def heart(self, us, typ="new_heart", late=0):
        if late:
            # the beat is still in the socket when the registration timer fires
            fr = self.heartframes(typ, us)
            self.st["monitor"].inbox.append(fr)
            self.loop.fire_until(clock.t + late)
            self.st["monitor"].flush()
            self.add(k="late", us=us, now=int(clock.t - clock.t0))
            return
        try:
            self.st["monitor"].deliver(self.heartframes(typ, us))
        except Exception:
            self.errors += 1
        self.add(k="heart" if typ == "new_heart" else "stop", us=us)

    def unreg(self, eid):
        self.query("unregistration_request", {"id": eid})
        self.add(k="unreg", id=eid)

    def shut(self, u):
        m = self.sess.msg("shutdown_reply", content={"status": "ok"})
        m["header"]["session"] = un(u)
        self.mon(b"iopub", [], self.sess.serialize(m, ident=[b"topic"]))
        self.add(k="shut", u=u)

    def adv(self, dt):
        self.loop.fire_until(clock.t + dt)
        self.add(k="adv", now=int(clock.t - clock.t0))

    def conn(self):
        c, _ = self.query("connection_request", {})
        e = [[int(k), int(v[1:])] for k, v in (c or {}).get("engines", {}).items()] if c else []
        self.add(k="conn", ok=c is not None and c.get("status") == "ok", engines=sorted(e))
        return e

    def restart(self):
        """controller restarted with the saved engine state and the same task database"""
        if self.backend != "dict":
            self.db.close()
        self.open_db()
        self.start_hub()
        try:
            self.hub._load_engine_state()
        except Exception:
            self.errors += 1
        self.add(k="restart", keep=self.backend != "dict")

    # -- records
    def new_msg(self):
        self.nm += 1
        n = self.nm
        mid = "m%04d" % ((n * 7919) % 10000)   # ids do not sort in submission order
        self.mid[mid] = n
        self.name[n] = mid
        return n

    def make_req(self, n):
        m = self.sess.msg("apply_request", content={"lab": n})
        m["header"]["msg_id"] = self.name[n]
        m["msg_id"] = self.name[n]
        m["header"]["session"] = "client"
        m["header"]["date"] = BASE + timedelta(seconds=(n * 37) % 1000)
        m["metadata"] = {"label": "L%d" % n}
        raw = self.sess.serialize(m)
        raw = raw[1:] + [b"buf%d" % n]
        assert raw[0] != b"<IDS|MSG>"
        raw = [b"<IDS|MSG>"] + raw
        self.req[n] = raw
        return raw

    def rank(self, n):
        return (n * 37) % 1000

    def mreq(self, n, u):
        self.mon(b"in", [un(u).encode(), b"client"], self.make_req(n))
        self.add(k="mreq", m=n, u=u, rank=self.rank(n))

    def treq(self, n, resub=False):
        raw = self.req[n] if resub else self.make_req(n)
        self.mon(b"intask", [b"client"], raw)
        self.add(k="treq", m=n, rank=0 if resub else self.rank(n))

    def breq(self, n):
        self.mon(b"inbcast", [b"client"], self.make_req(n))
        self.add(k="breq", m=n, rank=self.rank(n))

    def dest(self, n, u):
        m = self.sess.msg("task_destination", content={"msg_id": self.name[n], "engine_id": un(u)})
        self.mon(b"tracktask", [], self.sess.serialize(m, ident=[b"tracktask"])[0:0] + self.sess.serialize(m, ident=[b"hub"]))
        self.add(k="dest", m=n, u=u)

    def result(self, kind, n, u, st="ok"):
        self.lab += 1
        r = self.lab
        content = {"status": "ok", "lab": r} if st == "ok" else {"status": "error", "ename": "E", "evalue": "", "traceback": "", "lab": r}
        m = self.sess.msg("apply_reply", content=content, parent={"msg_id": self.name[n], "session": "client", "msg_type": "apply_request", "date": BASE})
        m["header"]["date"] = BASE + timedelta(seconds=2000 + r)
        m["metadata"] = {"engine": un(u), "status": st, "lab": r, "started": (BASE + timedelta(seconds=1500 + r)).isoformat()}
        raw = self.sess.serialize(m)
        raw = [b"<IDS|MSG>"] + raw[1:] + [b"rb%d" % r, b"rc%d" % r]
        if kind == "m":
            self.mon(b"out", [b"client", un(u).encode()], raw)
        elif kind == "t":
            self.mon(b"outtask", [b"client", un(u).encode()], raw)
        else:
            self.mon(b"outbcast", [b"client"], raw)
        self.add(k=kind + "res", m=n, u=u, r="r%d" % r, ab=st == "aborted")

    def io(self, n, name, text):
        if name in ("stdout", "stderr"):
            m = self.sess.msg("stream", content={"name": name, "text": text})
        elif name == "execute_input":
            m = self.sess.msg("execute_input", content={"code": text})
        elif name == "execute_result":
            m = self.sess.msg("execute_result", content={"data": {"text/plain": text}})
        else:
            m = self.sess.msg("error", content={"ename": text})
        m["parent_header"] = {"msg_id": self.name[n], "session": "client"}
        self.mon(b"iopub", [], self.sess.serialize(m, ident=[b"engine.0." + name.encode()]))
        self.add(k="io", m=n, name=name, text=text)

    # -- queries about records
    def label(self, c, n):
        rc = c.get("result_content")
        if not isinstance(rc, dict):
            return "none"
        if rc.get("ename") == "EngineError":
            return "died"
        lab = rc.get("lab")
        md = c.get("result_metadata") or {}
        hd = c.get("result_header") or {}
        if lab is None or md.get("lab") != lab or hd.get("msg_type") != "apply_reply":
            return "bad"
        return "r%d" % lab

    def getres(self, ns, statusonly=False, extra=()):
        names = [self.name[n] for n in ns] + list(extra)
        c, m = self.query("result_request", {"msg_ids": names, "status_only": statusonly})
        e = dict(k="getres", ms=list(ns) + [0] * len(extra), so=statusonly, err=True, pend=[], comp=[], res=[], bufs=[], io=[], hdr=[])
        if c is not None and c.get("status") == "ok":
            e["err"] = False
            e["pend"] = [self.mid.get(x, 0) for x in c["pending"]]
            e["comp"] = [self.mid.get(x, 0) for x in c["completed"]]
            order = []
            if not statusonly:
                for x in sorted(c["completed"]):
                    n = self.mid.get(x, 0)
                    rc = c.get(x, {})
                    l = self.label(rc, n)
                    e["res"].append([n, l])
                    if l not in ("died", "none", "bad"):
                        order.append(l)
                    io = rc.get("io", {})
                    er = io.get("execute_result")
                    e["io"].append([n, io.get("stdout") or "", io.get("stderr") or "", io.get("execute_input") or "",
                                    er["data"]["text/plain"] if er else "", (io.get("error") or {}).get("ename", "")])
                    h = rc.get("header") or {}
                    e["hdr"].append([n, bool(h.get("msg_id") == x and h.get("msg_type") == "apply_request" and (n in self.resub_of or (rc.get("metadata") or {}).get("label") == "L%d" % n))])
            # buffers must come in the sorted order of the message ids
            exp = []
            for l in order:
                exp += [b"rb" + l[1:].encode(), b"rc" + l[1:].encode()]
            e["bufok"] = [bytes(b) for b in m["buffers"]] == exp
        else:
            e["bufok"] = True
        self.add(**e)
        return e

    def origin(self, n):
        while n in self.resub_of:
            n = self.resub_of[n]
        return n

    resub_of = {}

    def qstat(self, targets, verbose):
        """targets: None, or list of ('id', eid) / ('u', u)"""
        t = None if targets is None else [x[1] if x[0] == "id" else un(x[1]) for x in targets]
        c, m = self.query("queue_request", {"targets": t, "verbose": verbose})
        e = dict(k="qstat", all=targets is None, ids=[x[1] for x in targets or [] if x[0] == "id"],
                 us=[x[1] for x in targets or [] if x[0] == "u"], verbose=verbose, err=True, rows=[], un=[], unn=0)
        if c is not None and c.get("status") == "ok":
            e["err"] = False
            f = lambda l: [self.mid.get(x, 0) for x in l] if isinstance(l, list) else []
            z = lambda l: len(l) if isinstance(l, list) else (l if isinstance(l, int) else -1)
            for k, v in c.items():
                if k.lstrip("-").isdigit():
                    e["rows"].append({"id": int(k), "q": f(v["queue"]), "t": f(v["tasks"]), "c": f(v["completed"]),
                                      "nq": z(v["queue"]), "nt": z(v["tasks"]), "nc": z(v["completed"])})
            e["un"] = f(c["unassigned"])
            e["unn"] = z(c["unassigned"])
        self.add(**e)

    def load(self, ids):
        c, m = self.query("load_request", {"targets": ids})
        e = dict(k="load", all=ids is None, ids=ids or [], err=True, rows=[])
        if c is not None and c.get("status") == "ok":
            e["err"] = False
            e["rows"] = [[int(k), v] for k, v in c.items() if k.lstrip("-").isdigit()]
        self.add(**e)

    def hist(self):
        c, m = self.query("history_request", {})
        ok = c is not None and c.get("status") == "ok"
        self.add(k="hist", err=not ok, ms=[self.mid.get(x, 0) for x in c["history"]] if ok else [])

    def dbq(self, which):
        chk = {"inc": {"completed": None}, "comp": {"completed": {"$ne": None}}}[which]
        c, m = self.query("db_request", {"query": chk, "keys": ["msg_id"]})
        ok = c is not None and c.get("status") == "ok"
        self.add(k="dbq", q=which, err=not ok, ms=[self.mid.get(r["msg_id"], 0) for r in c["records"]] if ok else [])

    def purge(self, ns, eids=(), all_=False):
        content = {"msg_ids": "all" if all_ else [self.name[n] for n in ns], "engine_ids": list(eids)}
        c, m = self.query("purge_request", content)
        self.add(k="purge", all=all_, ms=list(ns), ids=list(eids), err=not (c and c.get("status") == "ok"))

    def resub(self, ns, extra=()):
        self.sent_resub = []
        c, m = self.query("resubmit_request", {"msg_ids": [self.name[n] for n in ns] + list(extra)})
        ok = bool(c and c.get("status") == "ok")
        e = dict(k="resub", ms=list(ns) + [0] * len(extra), err=not ok, map=[], sent=[])
        if ok:
            for old, new in sorted(c["resubmitted"].items()):
                self.nm += 1
                n = self.nm
                self.mid[new] = n
                self.name[n] = new
                o = self.mid.get(old, 0)
                self.resub_of[n] = o
                e["map"].append([o, n])
        for raw, mm in self.sent_resub:
            new = mm["header"]["msg_id"]
            n = self.mid.get(new, 0)
            o = self.resub_of.get(n, 0)
            root = self.origin(o)
            good = (mm["content"] == {"lab": root} and [bytes(b) for b in mm["buffers"]] == [b"buf%d" % root]
                    and mm["header"]["msg_type"] == "apply_request")
            e["sent"].append([n, good])
            self.req[n] = [b"<IDS|MSG>"] + [bytes(x) for x in raw]
        self.add(**e)
        return [n for o, n in e["map"]]


class Driver:
    """random histories"""

    def __init__(self, sim, rng, prof):
        self.s, self.r, self.prof = sim, rng, prof
        sim.resub_of = {}
        self.nu = 0
        self.pend = {}    # u -> id
        self.reg = {}     # u -> id
        self.dead = []    # u
        self.usedids = []
        self.mux, self.task, self.bc = {}, {}, set()
        self.unsub = []
        self.known = []
        self.purged = set()
        self.lateok = {}
        self.stopped = False

    def run(self, steps):
        for _ in range(steps):
            self.step()
        s = self.s
        s.conn()
        if self.known:
            for n in list(self.known):
                s.getres([n])
        s.qstat(None, True)
        s.hist()

    def engines(self):
        return list(self.reg)

    def step(self):
        r, s = self.r, self.s
        w = {"reg": 3, "heart": 4, "stop": 1, "unreg": 1, "shut": .5, "adv": 2, "late": .5, "conn": 1, "unregpend": .5, "badreg": .7, "restart": .2,
             "mreq": 3, "mres": 3, "treq": 3, "dest": 3, "tres": 3, "breq": 1, "bres": 1, "io": 1.5, "getres": 3, "qstat": 2.5,
             "load": 1, "hist": .7, "dbq": 1, "purge": 1, "resub": 1, "lateres": .5}
        for k, m in {"members": dict(mreq=.3, treq=.3, breq=.3, getres=.4, qstat=.5, resub=.2, purge=.2, reg=3, stop=3, adv=2, restart=3, late=3),
                     "records": dict(reg=.4, stop=.5, unreg=.5, restart=.7),
                     "purge": dict(purge=4, resub=4, restart=.6), "death": dict(stop=4, unreg=3, mreq=2, lateres=4, adv=2),
                     "io": dict(io=4)}.get(self.prof, {}).items():
            w[k] = w[k] * m
        op = r.choices(list(w), list(w.values()))[0]
        getattr(self, "do_" + op)()

    def do_reg(self):
        r = self.r
        if len(self.reg) + len(self.pend) >= 4:
            return self.do_heart()
        back = [u for u in self.dead if not any(u in x for x in self.task.values()) and not any(u == x[0] for x in self.mux.values())]
        if back and r.random() < .15:
            u = r.choice(back)
            self.dead.remove(u)
        else:
            self.nu += 1
            u = self.nu
            if u > 12:
                return
        want = -1
        x = r.random()
        if x < .15:
            want = r.choice(self.usedids + [0, 1])
        elif x < .25:
            want = r.randrange(0, 9)
        i = self.s.register(u, want)
        if i is not None:
            self.pend[u] = (i, clock.t)
            self.usedids.append(i)

    def do_badreg(self):
        c = list(self.pend) + list(self.reg)
        if c:
            self.s.register(self.r.choice(c), self.r.choice([-1, -1, 3]))

    def sync(self):
        """which engines are registered is read back from the notifications"""
        for e in self.s.ev:
            if e.get("_seen"):
                continue
            e["_seen"] = True
            for t, i, u in e["note"]:
                if t == "reg":
                    self.reg[u] = i
                    self.pend.pop(u, None)
                elif t == "unreg":
                    self.reg.pop(u, None)
                    self.dead.append(u)

    def do_heart(self):
        r = self.r
        c = [u for u in self.pend]
        if not c:
            return
        us = r.sample(c, r.randint(1, len(c)))
        if r.random() < .2 and self.dead:
            us.append(r.choice(self.dead))
        if r.random() < .1 and self.reg:
            us.append(r.choice(list(self.reg)))
        self.s.heart(us)
        self.sync()

    def do_late(self):
        c = list(self.pend)
        if c:
            us = self.r.sample(c, self.r.randint(1, len(c)))
            self.s.heart(us, late=self.r.randint(1, 7))
            self.sync()
            self.expire()

    def expire(self):
        for u, (i, t) in list(self.pend.items()):
            if clock.t >= t + RT:
                self.pend.pop(u)
                self.dead.append(u)

    def drop(self):
        pass

    def do_stop(self):
        c = list(self.reg) + self.dead + list(self.pend)
        if self.reg and self.r.random() < .8:
            c = list(self.reg)
        if c:
            self.s.heart([self.r.choice(c)], "stopped_heart")
            self.sync()

    def do_unreg(self):
        if self.reg and self.r.random() < .9:
            self.s.unreg(self.reg[self.r.choice(list(self.reg))])
        else:
            self.s.unreg(self.r.choice([0, 1, 5, 17]))
        self.cancelcheck()
        self.sync()

    def cancelcheck(self):
        e = self.s.ev[-1]
        if not e["note"]:
            for u, (i, t) in list(self.pend.items()):
                if i == e["id"]:
                    self.pend.pop(u)
                    self.dead.append(u)

    def do_unregpend(self):
        if self.pend:
            u = self.r.choice(list(self.pend))
            self.s.unreg(self.pend[u][0])
            self.cancelcheck()
            self.sync()
            if self.r.random() < .6 and u in self.dead:
                if self.r.random() < .7:
                    self.s.adv(self.r.randint(1, 4))
                    self.expire()
                    self.sync()
                i = self.s.register(u)
                if i is not None:
                    self.dead.remove(u)
                    self.pend[u] = (i, clock.t)
                    self.usedids.append(i)

    def do_shut(self):
        if self.reg:
            self.s.shut(self.r.choice(list(self.reg)))
            self.sync()

    def do_adv(self):
        self.s.adv(self.r.choice([1, 1, 2, 3, 4, 5, 6]))
        self.expire()
        self.sync()

    def do_conn(self):
        self.s.conn()

    def do_restart(self):
        n = self.r.choice([1, 1, 2])
        for _ in range(n):
            self.s.restart()
        self.dead += list(self.pend)
        self.pend = {}
        self.mux, self.task, self.bc = {}, {}, set()
        if self.s.backend == "dict":
            pass
        self.lateok = {}
        self.s.conn()
        if self.r.random() < .6:
            self.do_reg()

    # records
    def do_mreq(self):
        s, r = self.s, self.r
        if s.nm > 24:
            return
        u = r.choice(list(self.reg)) if self.reg and r.random() < .95 else (self.dead[-1] if self.dead else None)
        if u is None:
            return
        if self.unsub and r.random() < .7 and u in self.reg:
            n = self.unsub.pop()
        else:
            n = s.new_msg()
        s.mreq(n, u)
        if u in self.reg:
            self.mux[n] = (u, self.reg[u])
            self.known.append(n)

    def do_mres(self):
        c = [n for n, (u, i) in self.mux.items() if self.reg.get(u) == i]
        if c:
            n = self.r.choice(c)
            u, _ = self.mux.pop(n)
            self.s.result("m", n, u, self.r.choice(["ok", "ok", "error"]))

    def do_lateres(self):
        c = [n for n, (u, i) in self.mux.items() if u in self.dead and u not in self.reg and u not in self.pend]
        if c:
            n = self.r.choice(c)
            u, _ = self.mux.pop(n)
            self.s.result("m", n, u, "ok")
            self.s.getres([n])

    def do_treq(self):
        s = self.s
        if s.nm > 24:
            return
        n = self.unsub.pop() if self.unsub and self.r.random() < .7 else s.new_msg()
        s.treq(n)
        self.task[n] = []
        self.known.append(n)

    def do_dest(self):
        c = [n for n in self.task if len(self.task[n]) < 3]
        us = list(self.reg) + (self.dead[-1:] if self.r.random() < .15 else [])
        if c and us:
            n = self.r.choice(c)
            us = [u for u in us if u not in self.task[n]]
            if us:
                u = self.r.choice(us)
                self.task[n].append(u)
                self.s.dest(n, u)

    def do_tres(self):
        c = [n for n in self.task if self.task[n]]
        if c:
            n = self.r.choice(c)
            u = self.task.pop(n)[-1]
            self.s.result("t", n, u, self.r.choice(["ok", "ok", "error", "aborted"]))
        else:
            c = list(self.task)
            if c and self.r.random() < .4:  # failed by the scheduler without running
                n = self.r.choice(c)
                self.task.pop(n)
                self.s.result("t", n, 99, "error")

    def do_breq(self):
        s = self.s
        if s.nm > 24:
            return
        n = self.unsub.pop() if self.unsub and self.r.random() < .7 else s.new_msg()
        s.breq(n)
        self.bc.add(n)
        self.known.append(n)

    def do_bres(self):
        if self.bc and (self.reg or self.dead):
            n = self.r.choice(sorted(self.bc))
            self.bc.discard(n)
            u = self.r.choice((list(self.reg) or self.dead))
            self.s.result("b", n, u, self.r.choice(["ok", "error"]))

    def do_io(self):
        s, r = self.s, self.r
        live = [n for n in self.known if n not in self.purged and (s.backend != "dict" or n in self.task or n in self.mux or n in self.bc)]
        if r.random() < .25 and s.nm < 22:
            n = s.new_msg()
            self.unsub.append(n)
        elif live:
            n = r.choice(live)
        else:
            return
        name = r.choice(["stdout", "stdout", "stderr", "execute_input", "execute_result", "error"])
        self.s.io(n, name, "x%d." % r.randrange(100))

    def do_getres(self):
        c = list(self.known)
        if self.unsub and self.r.random() < .1:
            c += self.unsub
        if not c:
            return
        ns = self.r.sample(c, min(len(c), self.r.randint(1, 4)))
        if self.r.random() < .1:
            ns = ns + ns[:1]
        extra = ["zzz"] if self.r.random() < .08 else []
        self.s.getres(ns, self.r.random() < .3, extra)

    def do_qstat(self):
        r = self.r
        x = r.random()
        if x < .4 or not self.reg:
            t = None
        elif x < .9:
            t = [("id", self.reg[u]) if r.random() < .7 else ("u", u) for u in r.sample(list(self.reg), r.randint(1, len(self.reg)))]
        else:
            t = [("id", 77)]
        self.s.qstat(t, r.random() < .7)

    def do_load(self):
        r = self.r
        t = None if r.random() < .4 or not self.reg else [self.reg[u] for u in r.sample(list(self.reg), r.randint(1, len(self.reg)))]
        self.s.load(t)

    def do_hist(self):
        self.s.hist()

    def do_dbq(self):
        self.s.dbq(self.r.choice(["inc", "comp"]))

    def do_purge(self):
        r = self.r
        if r.random() < .25:
            self.s.purge([], all_=True)
        else:
            c = list(self.known)
            ns = r.sample(c, min(len(c), r.choice([0, 1, 1, 2])))
            ids = []
            if self.reg and r.random() < .5:
                ids = [self.reg[u] for u in r.sample(list(self.reg), r.randint(1, min(2, len(self.reg))))]
            if r.random() < .1:
                ids.append(77)
            if not ns and not ids:
                return
            self.s.purge(ns, ids)
        self.purged |= set(self.known)  # conservatively: no more iopub for these
        for n in list(self.task) + list(self.mux) + sorted(self.bc):
            self.purged.discard(n)

    def do_resub(self):
        r = self.r
        c = [n for n in self.known]
        if not c or self.s.nm > 22:
            return
        ns = r.sample(c, min(len(c), r.choice([1, 1, 2])))
        new = self.s.resub(ns, ["zzz"] if r.random() < .1 else [])
        for n in new:
            self.known.append(n)
            if r.random() < .9 and n in self.s.req:
                self.s.treq(n, resub=True)
                self.task[n] = []


def script_trace(script, backend):
    sim = Sim(backend)
    sim.resub_of = {}
    ids = {}
    seen = 0

    def observe():
        nonlocal seen
        for e in sim.ev[seen:]:
            for t, i, u in e["note"]:
                if t == "reg":
                    ids[u] = i
        sim.conn()
        ms = sorted(n for n in sim.name)
        for n in ms:
            sim.getres([n])
        sim.qstat(None, True)
        seen = len(sim.ev)
    for o in script["ops"]:
        k = o["k"]
        m, u = o.get("m", 0), o.get("u", 0)
        if k in ("mreq", "treq", "breq"):
            resub = m in sim.resub_of
            while not resub and sim.nm < m:
                sim.new_msg()
            {"mreq": lambda: sim.mreq(m, u), "treq": lambda: sim.treq(m, resub=resub), "breq": lambda: sim.breq(m)}[k]()
        elif k == "reg":
            i = sim.register(u, o["want"])
            if i is not None:
                ids[u] = i
        elif k in ("heart", "stop"):
            sim.heart([u], {"heart": "new_heart", "stop": "stopped_heart"}[k])
        elif k == "late":
            sim.heart([u], late=o["d"])
        elif k == "unreg":
            sim.unreg(ids.get(u, 50))
        elif k == "adv":
            sim.adv(o["d"])
        elif k == "restart":
            sim.restart()
        elif k == "dest":
            sim.dest(m, u)
        elif k == "res":
            sim.result(o["kind"][0], m, u)
        elif k == "purge":
            sim.purge([m])
        elif k == "purgeeng":
            sim.purge([], [ids[u]])
        elif k == "resub":
            sim.resub([m])
        observe()
    sim.hist()
    sim.dbq("inc")
    sim.finish()
    return sim


def main():
    global RT
    out, mode, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    profs = ["all", "members", "records", "purge", "death", "io"]
    if mode == "random" and len(sys.argv) > 5 and sys.argv[5]:
        profs = sys.argv[5].split(",")
    try:
        with open(out, "w") as f:
            if mode == "script":
                RT = 3
                for i, line in enumerate(open(sys.argv[5])):
                    sim = script_trace(json.loads(line), "sqlite" if i % 4 == 0 or "restart" in line else "dict")
                    f.write(json.dumps({"id": i, "cfg": sim.cfg, "ev": sim.ev}) + "\n")
                count = 0
            for i in range(count):
                rng = random.Random(seed * 1000003 + i)
                prof = profs[i % len(profs)]
                sim = Sim("sqlite" if i % 3 == 2 else "dict")
                sim.cfg["prof"] = prof
                Driver(sim, rng, prof).run(rng.randint(15, 45))
                sim.finish()
                for e in sim.ev:
                    e.pop("_seen", None)
                f.write(json.dumps({"id": i, "cfg": sim.cfg, "ev": sim.ev}) + "\n")
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


main()
