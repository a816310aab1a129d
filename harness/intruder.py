"""Somebody without the cluster's key, connected to every port of the simulated system: sends
unsigned, wrongly signed, altered and malformed messages to the controller, its schedulers, the
engines behind them and the clients.  Nothing of it may have any effect."""
import collections
import hmac, hashlib

import simtasks
from fakenet import portof
from simsys import *
from ipyparallel import serialize
from jupyter_client.session import DELIM

MON = [b"in", b"out", b"intask", b"outtask", b"tracktask", b"incontrol", b"outcontrol", b"inbcast", b"outbcast", b"iopub", b"heartmonitor"]
HUBREQ = ["registration_request", "unregistration_request", "shutdown_request", "purge_request", "resubmit_request", "queue_request",
          "result_request", "history_request", "db_request", "load_request", "connection_request"]


class Intruder:
    """mixed into a World"""
    bad = None

    def __init__(self, r, cfg):
        self.seen = collections.deque(maxlen=150)
        self.atk = {}
        self.nforged = 0
        self.reqs = {}
        super().__init__(r, cfg)
        self.bad = Session(key=b"someone else's key")
        self.armed = False

    # ------------------------------------------------------------ what is genuine
    def split(self, frames):
        fr = [bytes(f) for f in frames]
        if DELIM not in fr:
            return fr, None
        i = fr.index(DELIM)
        return fr[:i], fr[i + 1:]

    def genuine(self, frames):
        _, ml = self.split(frames)
        return ml is not None and len(ml) >= 5 and bool(ml[0]) and ml[0] == self.s0.sign(ml[1:5])

    def before_exec(self, e, frames):
        if self.genuine(frames):
            return super().before_exec(e, frames)
        self.cur_msg, self.cur_type = "forged", ""

    def on_control(self, e, frames):
        if self.genuine(frames):
            super().on_control(e, frames)

    def see_reply(self, ci, c, frames):
        if self.genuine(frames):
            super().see_reply(ci, c, frames)

    def see_note(self, ci, frames):
        if self.genuine(frames):
            super().see_note(ci, frames)

    def see_iopub(self, ci, c, frames):
        if self.genuine(frames):
            super().see_iopub(ci, c, frames)

    def real_errors(self):
        return []

    def log(self, **k):
        if k["k"] in ("forge", "exit"):      # whatever else the driver leaves out
            self.ev.append(k)
        else:
            super().log(**k)

    def fire(self, k, x):
        try:
            super().fire(k, x)
        except SystemExit:
            self.log(k="exit")

    # ------------------------------------------------------------ the intruder at work
    def deliver(self, ch):
        fr = self.net.chan[ch][0]
        if self.genuine(fr):
            self.seen.append((ch[1], ch[0], [bytes(f) for f in fr]))
            _, ml = self.split(fr)
            h = json.loads(ml[1])
            if h["msg_type"] in ("apply_request", "execute_request"):
                self.reqs[h["msg_id"]] = h
        super().deliver(ch)

    def step(self):
        # it goes about its business while the others do theirs
        if self.armed and self.nforged < 40 and self.r.random() < self.rate:
            self.strike()
        return super().step()

    def targets(self):
        out = []
        for url, s in self.net.bound.items():
            if not getattr(s, "dead", False):
                out.append((url, s))
                if "registration" in self.names().get(url, url):
                    out += [(url, s)] * 3
                if url == portof(util.disambiguate_url(self.app.monitor_url)):
                    out += [("monitor", s)] * 3
        for c in self.clients:
            for n in ("query", "mux", "task", "broadcast", "control", "notification", "iopub"):
                s = getattr(c, f"_{n}_socket", None)
                if s is not None and not getattr(s, "dead", False):
                    out.append(("client " + n, s))
        for e in self.engines:
            if e.state == "up":
                out += [("engine shell", e.app.shell_socket), ("engine control", e.app.control_socket)]
        return out

    def ends(self):
        return [s for u, s in self.targets() if u.startswith(("client ", "engine ", "monitor")) or "registration" in self.names().get(u, u)]

    def names(self):
        d = {}
        for info, p in ((self.cinfo, ""), (self.einfo, "e_")):
            for k, v in info.items():
                if isinstance(v, int):
                    d["tcp:%d" % v] = p + k
                elif isinstance(v, list):
                    for x in v:
                        d["tcp:%s" % x] = p + k
        return d

    def put(self, s, frames):
        a = self.atk.get(s)
        if a is None:
            a = self.atk[s] = SSocket(zmq.DEALER)
            a._ident = ("intruder%d" % len(self.atk)).encode()
            if s.type in (zmq.ROUTER, zmq.REP):     # it may be answered
                s.peers[a._ident] = a
        fr = [a._ident] + list(frames) if s.type == zmq.ROUTER else list(frames)
        self.net.chan.setdefault((a, s), []).append([bytes(f) for f in fr])

    def sign(self, parts, dst):
        """jupyter_client remembers a signature before it checks it: who can read a message on its way can keep it from being
        accepted by sending something else with its signature first.  That is not this project's code: signatures are reused
        only where the genuine message has arrived, and nothing passes them on"""
        x = self.r.random()
        if x < .3:
            return b""
        if x < .6:
            return self.bad.sign(parts)
        if x < .7:
            return hmac.HMAC(b"", b"".join(parts), hashlib.sha256).hexdigest().encode()
        old = [f for d, _, f in self.seen if d is dst]
        if x < .85 and old and dst in self.ends():
            return self.split(self.r.choice(old))[1][0]
        return b"0" * 64

    def strike(self):
        r = self.r
        ts = self.targets()
        if not ts:
            return
        self.nforged += 1
        how = "craft"
        if r.random() < .5 and self.seen:
            alive = {s for _, s in ts}
            cand = [x for x in self.seen if x[0] in alive]
            if cand:
                how = "tamper"
                dst, src, fr = r.choice(cand)
        if how == "tamper":
            idents, ml = self.split(fr)
            if dst.type == zmq.ROUTER:
                idents = idents[1:]
            parts = self.alter(ml[1:5])
            bufs = ml[5:]
            name = "as seen"
        else:
            url, dst = r.choice(ts)
            name = self.names().get(url, url)
            idents, parts, bufs = self.craft(name, dst)
        sig = self.sign(parts, dst)
        ml = [sig, *parts]
        if sig == self.s0.sign(parts):     # nothing was altered
            ml[0] = b"1" * 64
        x = r.random()
        if x < .04:
            ml = ml[:r.randint(0, 4)]
            bufs = []
        frames = [*idents, DELIM, *ml, *bufs]
        if x > .97:
            frames = [f for f in frames if f != DELIM]
        self.log(k="forge", how=how, at=simtasks.tame(name))
        self.put(dst, frames)

    def alter(self, parts):
        r = self.r
        h, p, m, c = (json.loads(x) for x in parts)
        x = r.random()
        if x < .35:
            h["msg_id"] = "forged-" + self.new_id()
        elif x < .5:
            h["msg_type"] = r.choice(HUBREQ + ["apply_request", "abort_request", "clear_request", "unregistration_notification", "apply_reply"])
        elif x < .65 and isinstance(c, dict):
            c = dict(c, status="error", ename="SimError", evalue="<77>", traceback=[]) if "status" in c else dict(c, code="__import__('simtasks').job(777, '', 'ok', 0)")
        elif x < .75 and isinstance(m, dict):
            m = dict(m, engine=self.some_uuid())
        return [json.dumps(x).encode() for x in (h, p, m, c)]

    def some_uuid(self):
        return self.r.choice(self.engines).uuid if self.engines else "none"

    def some_msg(self):
        out = [m for c in self.clients for m in c.outstanding if m in self.reqs]
        pool = out if out and self.r.random() < .8 else list(self.reqs)
        return self.r.choice(sorted(pool)) if pool else None

    def pack(self, typ, content, parent=None, md=None, session=None):
        m = self.bad.msg(typ, content=content, metadata=md or {})
        m["header"]["msg_id"] = "forged-" + self.new_id()
        return [json.dumps(x, default=str).encode() for x in (m["header"], parent or {}, m["metadata"], m["content"])]

    def work(self):
        """a call that it would like to see run"""
        if self.r.random() < .5:
            return "apply_request", {}, serialize.pack_apply_message(simtasks.job, [777, "", "ok", 0], {})
        return "execute_request", dict(code="__import__('simtasks').job(777, '', 'ok', 0)", silent=False, user_expressions={}, store_history=True, allow_stdin=False, stop_on_error=True), []

    def reply(self):
        mid = self.some_msg()
        par = self.reqs.get(mid, {})
        md = dict(engine=self.some_uuid(), status="ok", dependencies_met=True, started=None, original_msg_id=mid, is_broadcast=True, is_coalescing=self.r.random() < .5)
        if isinstance(par, dict) and self.engines and self.r.random() < .3:
            par = dict(par, msg_id=f"{mid}_{self.some_uuid()}")
        st = self.r.random()
        if st < .6:
            return self.pack("apply_reply", dict(status="ok"), par, md), serialize.serialize_object(simtasks.Tok(777) if hasattr(simtasks, "Tok") else 777), par
        if st < .8:
            return self.pack("apply_reply", dict(status="error", ename="SimError", evalue="<777>", traceback=["x"], engine_info={}), par, dict(md, status="error")), [], par
        return self.pack("apply_reply", dict(status="aborted"), par, dict(md, status="aborted")), [], par

    def hubreq(self):
        r = self.r
        t = r.choice(HUBREQ[:5] * 3 + HUBREQ[5:])
        mids = sorted(self.reqs)
        some = r.sample(mids, min(len(mids), 2)) if mids else []
        c = {"registration_request": {"uuid": r.choice(["intruder-engine", self.some_uuid()])},
             "unregistration_request": {"id": r.choice([0, 1, 2]), "uuid": self.some_uuid()},
             "purge_request": {"msg_ids": r.choice(["all", some]), "engine_ids": r.choice([[], [0]])},
             "resubmit_request": {"msg_ids": some}, "result_request": {"msg_ids": some, "status_only": False},
             "db_request": {"query": {}, "keys": None}, "queue_request": {"targets": "all", "verbose": False},
             "load_request": {"targets": "all"}}.get(t, {})
        return self.pack(t, c)

    def craft(self, name, dst):
        r = self.r
        eu = self.some_uuid().encode()
        ci = r.choice(self.clients) if self.clients else None
        ident = (ci.session.bsession if ci is not None else b"x")
        if name.endswith("registration"):
            return [], self.hubreq(), []
        if name in ("mux", "task", "broadcast", "engine shell", "broadcast_scheduler"):
            t, c, b = self.work()
            md = {}
            if name == "broadcast":
                md = dict(targets=[self.some_uuid()], is_broadcast=True, is_coalescing=r.random() < .5)
            if name == "task":
                md = dict(targets=[], after=[], follow=[], retries=0)
            return ([eu] if name == "mux" else [ident] if name == "engine shell" else []), self.pack(t, c, md=md), b
        if name in ("control", "engine control"):
            t = r.choice(["abort_request", "clear_request", "shutdown_request", "execute_request"])
            c = {"abort_request": {"msg_ids": r.choice([None, [self.some_msg()]])}, "shutdown_request": {"restart": False},
                 "execute_request": self.work()[1]}.get(t, {})
            return [eu] if name == "control" else [ident], self.pack(t, c), []
        if name.startswith("e_") and "iopub" in name or name == "client iopub" or name.endswith("iopub"):
            par = self.reqs.get(self.some_msg(), {})
            x = r.random()
            if x < .15:
                m = self.bad.msg("shutdown_reply", content=dict(status="ok", restart=False))
                m["header"]["session"] = self.some_uuid()
                p = [json.dumps(y, default=str).encode() for y in (m["header"], par, {}, m["content"])]
            elif x < .4:
                p = self.pack("status", {"execution_state": "idle"}, par)
            elif x < .8:
                p = self.pack("stream", {"name": r.choice(["stdout", "stderr"]), "text": "<777>"}, par)
            else:
                p = self.pack("display_data", {"data": {"text/plain": "<777>"}, "metadata": {}}, par)
            return [f"engine.{r.choice([0, 1])}.stream".encode()], p, []
        if name == "client notification":
            n = r.choice(["registration_notification", "unregistration_notification"])
            i = r.choice([0, 1, 2, 9])
            return [b"x"], self.pack(n, dict(id=i, uuid=self.some_uuid())), []
        if name.startswith("client "):
            p, b, par = self.reply()
            return [], p, b
        if name.startswith("e_"):
            p, b, par = self.reply()
            return [ident], p, b
        # the monitor, and what else the controller has bound
        t = r.choice(MON)
        if t == b"heartmonitor":
            return [t, b""], self.pack(r.choice(["stopped_heart", "stopped_heart", "new_heart"]), {"hearts": [self.some_uuid()]}), []
        if t == b"iopub":
            return [t, *self.craft("iopub", dst)[0]], self.craft("iopub", dst)[1], []
        if t == b"tracktask":
            return [t, b""], self.pack("task_destination", {"msg_id": self.some_msg(), "engine_id": self.some_uuid()}), []
        if t.startswith(b"in"):
            k, c, b = self.work()
            return [t, ident, eu] if t in (b"in", b"incontrol") else [t, ident], self.pack(k, c, md=dict(targets=[], after=[], follow=[], retries=0)), b
        p, b, par = self.reply()
        return [t, eu, ident], p, b
