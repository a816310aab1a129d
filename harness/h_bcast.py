"""Drive the real tree of broadcast schedulers over an in-process network.
usage: h_bcast.py OUT random SEED COUNT | OUT script SEED 0 SCRIPTS"""
import json, random, sys, tempfile, shutil, time
from fakes import *
clock = Clock().install()
import fakenet
from fakenet import FSocket, Net
fakenet.install()
import zmq
from jupyter_client.session import Session
from traitlets.config import Config
from ipyparallel import error, serialize, util
from ipyparallel.controller import app as app_mod
from ipyparallel.controller.app import IPController

KEY = b"a-key"
_boot = {}
TMP = tempfile.mkdtemp(prefix="vf_bc_")
from IPython.core.profiledir import ProfileDir
PROFILE = ProfileDir.create_profile_dir(TMP)
time.sleep = lambda *a: None


def boot(depth):
    """let the real controller application lay out the tree of schedulers"""
    FSocket.NET = Net()
    c = Config()
    c.Session.key = KEY
    c.IPController.broadcast_scheduler_depth = depth
    c.IPController.use_threads = True
    c.IPController.log_level = 50
    c.IPController.ports = list(range(20000, 20200))
    c.IPController.restore_engines = False
    c.IPController.enable_curve = False
    c.IPController.db_class = "NoDB"
    app = IPController(config=c)
    app.profile_dir = PROFILE
    app.write_connection_files = False
    app.init_hub()
    app.launch_broadcast_schedulers(app.monitor_url, [])
    return FSocket.NET, app.engine_info["broadcast"], app.client_info["broadcast"]


class Sim:
    def __init__(self, r, depth, engines, auto=True):
        self.r = r
        self.cfg = {"depth": depth}
        self.ev = []
        self.net, leaves, cport = boot(depth)
        self.sess = Session(key=KEY)
        self.client = FSocket(zmq.DEALER, self.net)
        self.client.setsockopt(zmq.IDENTITY, b"client-%d" % r.randint(0, 99))
        self.other = FSocket(zmq.DEALER, self.net)
        self.other.setsockopt(zmq.IDENTITY, b"other-client")
        for s, me in ((self.client, True), (self.other, False)):
            s.connect(f"tcp://127.0.0.1:{cport}")
            s.on_msg = lambda fr, me=me: self.on_client(fr, me)
        self.eng = {}
        self.uuid = {}
        for e in engines:
            u = "%08x-e%d" % (r.getrandbits(32), e)
            self.uuid[e] = u
            for k, port in enumerate(leaves):   # an engine listens on its own leaf; stray copies are seen too
                if k == e % len(leaves) or r.random() < .3:
                    s = FSocket(zmq.ROUTER, self.net)
                    s.setsockopt(zmq.IDENTITY, u.encode())
                    s.connect(f"tcp://127.0.0.1:{port}")
                    s.on_msg = lambda fr, e=e, k=k, s=s: self.on_engine(e, k, s, fr)
        self.back = {v: k for k, v in self.uuid.items()}
        self.req = {}
        self.mid = {}
        self.pend = []
        self.owner = {}
        self.toks = {}

    def log(self, **k):
        self.ev.append(k)

    def sub(self, m, ts, coal, by=None):
        s = by or self.client
        self.owner[m] = s is self.client
        bufs = [b"f%d" % m, b"x" * self.r.choice([0, 3, 5000])]
        msg = self.sess.msg("apply_request", content={"n": m}, metadata={"targets": [[self.uuid[t], t] for t in ts], "is_broadcast": True, "is_coalescing": coal, "extra": m})
        self.mid[msg["header"]["msg_id"]] = m
        self.req[m] = (msg["header"]["msg_id"], bufs, coal)
        self.log(k="sub", m=m, ts=list(ts), c=coal)
        self.net.send(s, self.sess.serialize(msg) + bufs)

    def split(self, mid):
        for full, m in self.mid.items():
            if mid == full:
                return m, ""
            if mid.startswith(full + "_"):
                return m, mid[len(full) + 1:]
        return 0, ""

    def on_engine(self, e, leaf, sock, frames):
        try:
            idents, ml = self.sess.feed_identities(frames)
            msg = Session(key=KEY).deserialize(ml)
            m, rest = self.split(msg["header"]["msg_id"])
            ok = bool(m) and msg["content"] == {"n": m} and [bytes(b) for b in msg["buffers"]] == self.req[m][1] and msg["metadata"].get("extra") == m and msg["header"]["msg_type"] == "apply_request"
        except Exception:
            m, rest, ok, msg = 0, "", False, None
        self.log(k="copy", m=m, e=e, leaf=leaf, intact=ok, id=rest == self.uuid[e])
        if m:
            self.pend.append((m, e, sock, idents, msg))

    def reply(self, i, st):
        m, e, sock, idents, msg = self.pend.pop(i)
        tok = m * 100 + e
        md = {"started": "2026-01-01T00:00:00Z", "dependencies_met": True, "engine": self.uuid[e], "status": st,
              **{k: msg["metadata"].get(k) for k in ("is_broadcast", "is_coalescing", "original_msg_id")}, "label": None}
        bufs = []
        if st == "ok":
            content = {"status": "ok"}
            res = tok if self.r.random() < .6 else {"tok": tok, "data": b"z" * self.r.choice([10, 3000, 70000]), "l": [b"q" * 3000, tok]}
            bufs = serialize.serialize_object(res)
        elif st == "aborted":
            content = {"status": "aborted"}
        else:
            content = {"status": "error", "ename": "E%d" % tok, "evalue": str(tok), "traceback": [], "engine_info": {"engine_uuid": self.uuid[e], "engine_id": e}}
        self.log(k="rep", m=m, e=e, st=st, tok=tok if st == "ok" else 0)
        rep = self.sess.msg("apply_reply", content=content, parent=msg, metadata=md)
        self.toks[(m, e)] = (content, [bytes(b) for b in bufs])
        self.net.send(sock, list(idents) + self.sess.serialize(rep) + bufs)

    @staticmethod
    def tok(x):
        return x if isinstance(x, int) else x.get("tok", -1) if isinstance(x, dict) else -1

    def on_client(self, frames, me):
        o = dict(k="out", m=0, e=0, st="?", tok=-1, es=[], toks=[], coal=False, client=False, intact=False)
        try:
            idents, ml = self.sess.feed_identities(frames)
            msg = Session(key=KEY).deserialize(ml)
            md, content = msg["metadata"], msg["content"]
            m, rest = self.split(msg["parent_header"]["msg_id"])
            coal = bool(md.get("is_coalescing"))
            if coal:
                m = self.mid.get(md["original_msg_id"], 0)
            o.update(m=m, st=content["status"], coal=coal, client=self.owner.get(m) == me)
            if coal:
                o["es"] = [self.back.get(t[0], 99) if t[1] == self.back.get(t[0]) else 98 for t in md["broadcast_targets"]]
                bufs, toks = list(msg["buffers"]), []
                while bufs and content["status"] == "ok":
                    x, bufs = serialize.deserialize_object(bufs)
                    toks.append(self.tok(x))
                o["toks"] = toks
            else:
                e = self.back.get(rest, 99)
                o["e"] = e
                c, b = self.toks.get((m, e), (None, None))
                o["intact"] = c == content and b == [bytes(x) for x in msg["buffers"]] and md.get("engine") == self.uuid.get(e)
                o["tok"] = self.tok(serialize.deserialize_object(msg["buffers"])[0]) if content["status"] == "ok" else 0
        except Exception:
            pass
        self.log(**o)

    def net_step(self):
        q = self.net.ready()
        if q:
            q.sort(key=lambda c: (c[0].n, c[1].n))
            try:
                self.net.step(self.r.choice(q))
            except Exception:
                pass
        return bool(q)

    def settle(self):
        while self.net_step():
            pass
        self.log(k="quiet")


def main():
    out, mode, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    with open(out, "w") as f:
        def dump(s, i):
            f.write(json.dumps({"id": i, "cfg": s.cfg, "ev": s.ev}) + "\n")
        if mode == "script":
            for i, line in enumerate(open(sys.argv[5])):
                sc = json.loads(line)
                r = random.Random(seed * 31 + i)
                es = sorted({e for o in sc["ops"] if o["k"] == "sub" for e in o["ts"]} | {0, 1})
                s = Sim(r, sc["d"], es)
                for o in sc["ops"]:
                    if o["k"] == "sub":
                        s.sub(o["m"], o["ts"], o["c"])
                    elif o["k"] == "net":
                        s.net_step()
                    else:
                        def idx():
                            return [j for j, p in enumerate(s.pend) if p[0] == o["m"] and p[1] == o["e"]]
                        while not idx() and s.net_step():
                            pass
                        if idx():
                            s.reply(idx()[0], o["st"])
                s.settle()
                dump(s, i)
        else:
            for i in range(count):
                r = random.Random(seed * 7919 + i)
                depth = r.choice([0, 1, 1, 2, 2, 3])
                es = sorted(r.sample(range(0, 20), r.randint(1, 12)))
                s = Sim(r, depth, es)
                nm = r.randint(1, 4)
                m = 0
                perr = r.choice([0, 0, .1, .5])
                for _ in range(r.randint(20, 150)):
                    x = r.random()
                    if x < .06 and m < nm or m == 0:
                        m += 1
                        ts = r.sample(es, r.randint(1, len(es)))
                        if r.random() < .4:
                            ts.sort()
                        s.sub(m, ts, r.random() < .55, by=s.other if r.random() < .15 else None)
                    elif x < .4 and s.pend:
                        s.reply(r.randrange(len(s.pend)), "ok" if r.random() >= perr else r.choice(["error", "error", "aborted"]))
                    else:
                        s.net_step()
                if r.random() < .8:
                    while True:
                        s.settle()
                        if not s.pend:
                            break
                        s.reply(r.randrange(len(s.pend)), "ok" if r.random() >= perr else "error")
                else:
                    s.settle()
                dump(s, i)


try:
    main()
finally:
    shutil.rmtree(TMP, ignore_errors=True)
