"""Retrieve, resubmit and purge requests with real clients of the whole simulated system.
usage: h_ret.py OUT random SEED COUNT PROFILES | OUT script SEED COUNT FILE"""
import tempfile

import simsys
from h_client import *
from ipyparallel.serialize import unpack_apply_message

KEYS = ["header", "submitted", "completed", "engine_uuid", "result_buffers", "buffers", "result_content", "started", "queue", "stdout", "resubmitted"]


class RWorld(World):
    KEEP = {"kill", "sub", "run", "hub", "call", "ret", "end"}

    def __init__(self, r, cfg):
        self.rno = {}
        self.hubstate = {}
        self.handles = {}
        self.nh = 0
        self.xk = set()
        self.owned = []
        if cfg.get("db") == "SQLiteDB":
            d = tempfile.mkdtemp(dir=simsys.TMP)
            cfg = dict(cfg, extra={"SQLiteDB": {"location": d}})
        super().__init__(r, cfg)
        self.cfg.pop("extra", None)

    def log(self, **k):
        if k["k"] in self.KEEP:
            self.ev.append(k)

    def see_note(self, ci, frames): pass
    def see_iopub(self, ci, c, frames): pass
    def see_reply(self, ci, c, frames): pass
    def on_control(self, e, frames): pass
    def bind(self): pass

    def r_of(self, mid):
        if mid == "nowhere":
            return 0
        if mid not in self.rno:
            self.rno[mid] = len(self.rno) + 1
        return self.rno[mid]

    def rs(self, mids):
        return [self.r_of(m) for m in mids]

    def ran(self, k, out, how):
        self.ntok += 1
        self.log(k="run", x=k in self.xk, r=self.r_of(self.cur_msg), kk=k, e=Cur.engine.n + 1, tok=self.ntok, ok=how == "ok",
                 out=[self.ntok * 10 + j for j, x in enumerate(out) if x == "o"])
        return self.ntok

    # ------------------------------------------------------------ what the hub has
    def fire(self, k, x):
        super().fire(k, x)
        if k in ("loop", "stop", "net"):
            self.look_hub()

    def look_hub(self):
        recs = self.app.hub.db.find_records({"msg_id": {"$ne": ""}}, keys=["msg_id", "completed", "submitted"])
        # whether it was submitted, as far as the hub knows, and finished
        now = {rec["msg_id"]: (bool(rec["submitted"]), bool(rec["completed"])) for rec in recs}
        old = self.hubstate
        if now != old:
            new = [m for m in now if m not in old]
            fin = [m for m in now if now[m][1] and not old.get(m, (0, 0))[1]]
            hrd = [m for m in now if now[m][0] and not old.get(m, (0, 0))[0]]
            gone = [m for m in old if m not in now]
            self.hubstate = now
            self.log(k="hub", rec=self.rs(new), fin=self.rs(fin), drp=self.rs(gone), hrd=self.rs(hrd))

    # ------------------------------------------------------------ requests
    def request(self, c, mode, target, func, how, out, size):
        ci = self.cno[id(c)]
        self.k += 1
        k = self.k
        if func == "execute":
            self.xk.add(k)
        n0 = len(c.history)
        v = c.load_balanced_view() if mode == "lb" else c.direct_view(target)
        v.block = False
        if func == "execute":
            ar = v.execute(f"__import__('simtasks').job({k}, {out!r}, {how!r}, {size})", silent=self.r.random() < .5, block=False)
        else:
            ar = v.apply_async(simtasks.job, k, out, how, size)
        rs = self.rs(c.history[n0:])
        self.log(k="sub", c=ci, rs=rs, kk=k, x=func == "execute")
        ar.owner = ar.owner and self.r.random() < .5
        self.owned.append((c, rs))
        if self.r.random() < .6:
            self.handle(c, ar, rs, mode == "lb" or isinstance(target, int), True)
        return ar

    def handle(self, c, ar, rs, single, own=False):
        self.nh += 1
        self.handles[self.nh] = dict(c=c, ar=ar, rs=rs, single=single, own=own)
        return self.nh

    def call(self, c, op, rs, **x):
        ids = [m for m, n in self.rno.items()]
        self.log(k="call", c=self.cno[id(c)], op=op, rs=rs, loc=[self.rno[m] for m in c.results if m in self.rno], out=[self.rno[m] for m in c.outstanding if m in self.rno], **x)

    def ret(self, c, op, **x):
        self.log(k="ret", c=self.cno[id(c)], op=op, **x)

    def tried(self, fn, good):
        """what came of it"""
        try:
            x = fn()
        except (Hang, TooLong):
            return dict(st="hang")
        except TimeoutError:
            return dict(st="timeout")
        except error.CompositeError as e:
            return dict(st="comp", v=[code_of(x[0], x[1]) for x in e.elist])
        except error.RemoteError as e:
            if e.ename in ("KeyError", "IndexError"):
                return dict(st={"K": "key", "I": "idx"}[e.ename[0]])
            return dict(st="exc", v=[code(e)])
        except error.TaskAborted as e:
            return dict(st="exc", v=[code(e)])
        except RuntimeError as e:
            if "outstanding" in str(e):
                return dict(st="busy")
            return dict(st="bug:" + type(e).__name__)
        except Exception as e:
            import traceback
            self.tb = traceback.format_exc()
            return dict(st="bug:" + type(e).__name__ + " " + simtasks.tame(str(e)[:40]))
        return good(x)

    def jobs(self, c, dup=True, bad=True):
        """(what the user passes, the ids it means, whether it is single)"""
        r = self.r
        known = list(self.rno)
        mine = c.history

        def one():
            x = r.random()
            if x < .6 and known:
                m = r.choice(known)
                return m, [m]
            if x < .75 and mine:
                i = r.randrange(-len(mine), len(mine))
                return i, [mine[i]]
            if x < .9:
                hs = [h for h in self.handles.values() if h["c"] is c]
                if hs:
                    h = r.choice(hs)
                    return h["ar"], list(h["ar"].msg_ids)
            if bad and r.random() < .15:
                return "nowhere", ["nowhere"]
            if known:
                m = r.choice(known)
                return m, [m]
            return None
        if r.random() < .4:
            x = one()
            if x is None:
                return None
            return x[0], x[1], not hasattr(x[0], "msg_ids") or len(x[1]) == 1
        J, ids = [], []
        for _ in range(r.choice([1, 2, 2, 3, 4, 6])):
            x = one()
            if x and (dup or not set(x[1]) & set(ids)):
                J.append(x[0])
                ids += x[1]
        if not J:
            return None
        return (J if r.random() < .8 else tuple(J)), ids, False

    # ------------------------------------------------------------ operations
    def o_status(self, c, jobs=None, only=None):
        j = jobs or self.jobs(c)
        if not j:
            return
        only = self.r.random() < .5 if only is None else only
        rs = self.rs(j[1])
        arg = j[0]
        self.call(c, "status", rs)

        def good(x):
            x = dict(x)
            comp, pend = x["completed"], x["pending"]
            v = [] if only else [code(x[m]) if m in x else GARB for m in comp]
            return dict(st="ok", comp=self.rs(comp), pend=self.rs(pend), v=v)
        self.ret(c, "status", only=only, **self.tried(lambda: c.result_status(arg, status_only=only), good))

    def o_get_result(self, c, jobs=None, owner=None):
        j = jobs or self.jobs(c)
        if not j:
            return
        arg, ids, single = j
        kw = {}
        owner = self.r.choice([None, True, False]) if owner is None else owner
        if owner is not None:
            kw["owner"] = owner
        rs = self.rs(ids)
        self.call(c, "get_result", rs)

        def good(ar):
            h = self.handle(c, ar, rs, single)
            return dict(st="ok", h=h, rs=self.rs(ar.msg_ids))
        self.ret(c, "get_result", **self.tried(lambda: c.get_result(arg, block=False, **kw), good))

    def any_h(self, h=None):
        if not self.handles:
            return None
        h = h or self.r.choice(list(self.handles))
        return h, self.handles[h]

    def o_ready(self, h=None):
        x = self.any_h(h)
        if not x:
            return
        h, i = x
        self.call(i["c"], "ready", i["rs"], h=h)
        self.ret(i["c"], "ready", h=h, **self.tried(i["ar"].ready, lambda r: dict(st="yes" if r else "no")))

    def o_wait(self, h=None):
        x = self.any_h(h)
        if not x:
            return
        h, i = x
        to = self.r.choice([0, .3, 2, 10])
        self.call(i["c"], "ready", i["rs"], h=h)
        self.ret(i["c"], "ready", h=h, **self.tried(lambda: i["ar"].wait(to), lambda r: dict(st="yes" if r else "no")))

    def enc(self, i, x):
        if i["single"]:
            x = x[0] if isinstance(x, list) and len(x) == 1 and not simtasks.tok_of(x) else x
            return [code(x)]
        return [code(y) for y in x] if isinstance(x, list) else [GARB]

    def o_get(self, h=None, to=-2, rx=None):
        x = self.any_h(h)
        if not x:
            return
        h, i = x
        to = self.r.choice([0, 0, 0, .3, 2, None]) if to == -2 else to
        rx = self.r.random() < .3 if rx is None else rx
        self.call(i["c"], "get", i["rs"], h=h)
        self.ret(i["c"], "get", h=h, rx=rx, inf=to is None, **dict(dict(v=[]), **self.tried(lambda: i["ar"].get(to, return_exceptions=rx), lambda y: dict(st="val", v=self.enc(i, y)))))

    def o_md(self, h=None):
        """metadata of a result that was retrieved"""
        x = self.any_h(h)
        if not x:
            return
        h, i = x
        if not i["ar"]._ready:
            return
        self.call(i["c"], "md", i["rs"], h=h)

        def good(ms):
            L = [ms] if isinstance(ms, dict) else ms
            if any(isinstance(m["engine_uuid"], list) for m in L):
                return dict(st="skip")
            return dict(st="ok", ms=[dict(r=self.r_of(m["msg_id"]) if m["msg_id"] else -1, e=self.en(m["engine_uuid"]) if m["engine_uuid"] else 0,
                                          st=m["status"] or "", so=toks_in(m["stdout"]) if m["stdout"] else []) for m in L])
        self.ret(i["c"], "md", h=h, **self.tried(lambda: i["ar"].metadata, good))

    def o_resubmit(self, c, jobs=None):
        j = jobs or self.jobs(c)
        if not j or len(self.rno) > 22:
            return
        arg, ids, single = j
        rs = self.rs(ids)
        self.call(c, "resubmit", rs)

        def good(ar):
            news = self.rs(ar.msg_ids)
            h = self.handle(c, ar, news, False)
            return dict(st="ok", h=h, news=news)
        self.ret(c, "resubmit", **self.tried(lambda: c.resubmit(arg, block=False), good))

    def held(self, c):
        return sorted({self.rno[m] for d in (c.results, c.metadata, c._futures) for m in d if m in self.rno})

    def o_purge(self, c, what=None, jobs=None):
        r = self.r
        what = what or r.choice(["hub", "hub", "local", "local", "both"])
        j, eng = None, []
        kw = {}
        alls = r.random() < .12 and not jobs
        if alls:
            kw["jobs"] = "all"
            rs = []
        else:
            ids = c.ids
            if r.random() < .25 and ids and not jobs:
                t = r.choice(ids) if r.random() < .5 else r.sample(ids, r.randint(1, len(ids)))
                tab = self.table(c)
                eng = [tab[x] for x in ([t] if isinstance(t, int) else t)]
                kw["targets"] = t
            if not eng or r.random() < .3:
                j = jobs or self.jobs(c)
                if j:
                    kw["jobs"] = j[0]
            if not kw:
                return
            rs = self.rs(j[1]) if j else []
        # what the client knows of the engines of its requests
        at = [[self.rno[m], self.en(d["engine_uuid"])] for m, d in c.metadata.items() if m in self.rno and isinstance(d["engine_uuid"], str)]
        self.call(c, "purge", rs, all=alls, eng=eng, what=what, have=self.held(c), at=at, own=sorted({x for i in self.handles.values() if i["c"] is c and i["ar"].owner for x in i["rs"]} | {x for o, q in self.owned if o is c for x in q}))
        fn = {"hub": c.purge_hub_results, "local": c.purge_local_results, "both": c.purge_results}[what]
        self.ret(c, "purge", **dict(self.tried(lambda: fn(**kw), lambda x: dict(st="ok")), have=self.held(c), loc=[self.rno[m] for m in c.results if m in self.rno]))

    def o_history(self, c):
        self.call(c, "history", [])
        self.ret(c, "history", **self.tried(c.hub_history, lambda x: dict(st="ok", rs=self.rs(x))))

    def o_query(self, c):
        r = self.r
        keys = r.choice([None, None, r.sample(KEYS, r.randint(1, 4)), r.choice(KEYS)])
        q = r.choice(["ids", "ids", "done", "notdone"])
        rs = []
        if q == "ids":
            j = self.jobs(c)
            if not j:
                return
            ids = j[1]
            query = {"msg_id": {"$in": ids}} if len(ids) > 1 or r.random() < .5 else {"msg_id": ids[0]}
            rs = self.rs(ids)
        elif q == "done":
            query = {"completed": {"$ne": None}}
        else:
            query = {"completed": None}
        self.call(c, "query", rs, q=q)
        ks = [keys] if isinstance(keys, str) else keys

        def good(recs):
            out = []
            for rec in recs:
                val, kk = 0, 0
                if rec.get("result_buffers"):
                    val = GARB
                    x, rest = deserialize_object(rec["result_buffers"])
                    if not rest:
                        val = code(x)
                if rec.get("buffers"):
                    kk = GARB
                    f, a, kw = unpack_apply_message(rec["buffers"], {})
                    if f.__name__ == "job" and not kw:
                        kk = a[0]
                got = set(rec) - {"msg_id"}
                fine = all(rec[d] is None or hasattr(rec[d], "year") for d in ("submitted", "started", "completed") if d in rec)
                if ks is not None:
                    fine = fine and got == set(ks) - {"msg_id"}
                else:
                    fine = fine and set(KEYS) - {"buffers", "result_buffers"} <= got and not got & {"buffers", "result_buffers"}
                out.append(dict(r=self.r_of(rec["msg_id"]), fine=fine, v=val, kk=kk, done=int(rec["completed"] is not None) if "completed" in rec else 2))
            return dict(st="ok", recs=out)
        self.ret(c, "query", **self.tried(lambda: c.db_query(query, keys=keys), good))

    # ------------------------------------------------------------ the end
    def finish(self):
        for e in self.engines:
            e.busy = False
        for _ in range(60):
            self.settle()
            d = self.timers()
            if d is None or d > clock.t + 60:
                break
            clock.t = max(clock.t, d)
        self.settle()
        self.look_hub()
        self.log(k="end")
        for h in list(self.handles):
            self.o_get(h, self.r.choice([0, 5]))
            self.o_md(h)
        for c in self.clients:
            self.o_history(c)
            if self.rno:
                ids = [m for m in self.rno if m in self.hubstate]
                if ids:
                    self.o_status(c, (ids, ids, False), True)


def scenario(seed, prof):
    r = random.Random(seed)
    w = RWorld(r, {"depth": 1, "prof": prof, "db": "DictDB" if r.random() < .8 else "SQLiteDB"} if prof != "script" else {"depth": 1, "prof": prof})
    try:
        play(w, r, prof)
        w.finish()
    except TooLong:
        w.log(k="ret", c=0, op="none", st="toolong")
    return {"id": seed, "cfg": w.cfg, "ev": w.ev}, w


def play(w, r, prof):
    for _ in range(r.choice([1, 2, 2, 3])):
        w.start_engine()
    w.settle()
    cs = [w.new_client() for _ in range(r.choice([1, 2, 2]))]
    w.settle()

    def op_sub():
        c = r.choice(cs)
        if not c.ids or len(w.rno) > 18:
            return
        mode = r.choices(["direct", "lb"], [2, 1])[0]
        t = r.choice(c.ids) if mode == "direct" and r.random() < .6 else r.sample(c.ids, r.randint(1, len(c.ids)))
        func = "execute" if mode == "direct" and r.random() < .25 else "apply"
        w.request(c, mode, t, func, "ok" if r.random() < .75 else "fail", "".join(r.choices("oef", k=r.choice([0, 0, 1, 2]))), 0 if func == "execute" else r.choice([0, 0, 1, 2, 3]))

    def op_churn():
        live = [e for e in w.engines if e.state == "up"]
        if len(live) > 1 and r.random() < .6:
            w.die(r.choice(live))
        elif len(w.engines) < 5:
            w.start_engine()

    def op_busy():
        live = [e for e in w.engines if e.state == "up"]
        if live:
            e = r.choice(live)
            e.busy = not e.busy
    ops = {"sub": (4, op_sub), "step": (4, lambda: w.run(r.randint(1, 25))), "status": (1.5, lambda: w.o_status(r.choice(cs))), "get_result": (2.5, lambda: w.o_get_result(r.choice(cs))),
           "ready": (.7, w.o_ready), "wait": (.7, w.o_wait), "get": (2.5, w.o_get), "md": (1, w.o_md), "resubmit": (1, lambda: w.o_resubmit(r.choice(cs))), "purge": (1 if prof == "plain" else .6, lambda: w.o_purge(r.choice(cs))),
           "history": (.5, lambda: w.o_history(r.choice(cs))), "query": (1, lambda: w.o_query(r.choice(cs))), "busy": (.6, op_busy), "settle": (.5, w.settle), "churn": (.8 if prof == "churn" else 0, op_churn)}
    ks = list(ops)
    for _ in range(r.randint(8, 36)):
        ops[r.choices(ks, [ops[k][0] for k in ks])[0]][1]()


def script(seed, sc):
    """requests and retrievals as the specification makes them"""
    r = random.Random(seed)
    w = RWorld(r, {"depth": 1, "prof": "script"})
    try:
        for _ in range(2):
            w.start_engine()
        w.settle()
        cs = [w.new_client(), w.new_client()]
        w.settle()
        mid = {}
        for op in sc["ops"]:
            k = op["k"]
            if k == "sub":
                c = cs[op["c"] - 1]
                n0 = len(c.history)
                w.request(c, *r.choice([("direct", r.choice(c.ids)), ("lb", None)]), "apply", op["how"], r.choice(["", "o"]), 0)
                mid[op["r"]] = c.history[n0]
            elif k == "net":
                w.run(r.randint(1, 12))
            elif k == "busy":
                for e in w.engines:
                    e.busy = op["on"]
            else:
                c = cs[op["c"] - 1]
                ids = [mid[x] for x in op["rs"] if x in mid]
                if not ids:
                    continue
                J = (ids, ids, False)
                if k == "get_result":
                    w.o_get_result(c, J)
                elif k == "status":
                    w.o_status(c, J, op["only"])
                elif k == "purge":
                    w.o_purge(c, op["what"], J)
                elif k == "resubmit":
                    w.o_resubmit(c, J)
                    if w.ev[-1]["st"] == "ok":
                        mid[op["new"]] = next(m for m, n in w.rno.items() if n == w.ev[-1]["news"][0])
                elif k == "get":
                    hs = [h for h, i in w.handles.items() if i["c"] is c]
                    if hs:
                        w.o_get(r.choice(hs))
        w.finish()
    except TooLong:
        w.log(k="ret", c=0, op="none", st="toolong")
    return {"id": seed, "cfg": w.cfg, "ev": w.ev}


def main():
    out, mode, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    with open(out, "w") as fo:
        if mode == "random":
            profs = sys.argv[5].split(",")
            for i in range(count):
                t, w = scenario(seed * 100003 + i, profs[i % len(profs)])
                fo.write(json.dumps(t) + "\n")
        else:
            for i, l in enumerate(open(sys.argv[5])):
                fo.write(json.dumps(script(seed * 100003 + i, json.loads(l))) + "\n")
    cleanup()


if __name__ == "__main__":
    main()
