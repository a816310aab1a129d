"""Drive parallel maps of real clients against the whole simulated system.
usage: h_map.py OUT random SEED COUNT PROFILES | OUT script SEED COUNT FILE"""
from h_client import *
from simtasks import ErrVal, item, lazyjob, mapjob, partjob, sumjob


class InputError(Exception):
    pass


def mcode(v):
    if isinstance(v, ErrVal):
        return v.args[0] if v.args and v.args[0] % 4 == 0 else GARB
    if isinstance(v, dict) and list(v) == ["v"]:
        return v["v"]
    return code(v)


class MWorld(World):
    KEEP = {"kill", "map", "mapx", "lazy", "run", "res", "it", "len", "take", "dry", "fin", "broke", "yld", "end", "cancel", "shut0", "shut", "quiet"}

    def __init__(self, r, cfg):
        self.nm = 0
        self.bad = set()
        self.takes = {}
        self.maps = {}
        self.lz = {}
        super().__init__(r, cfg)

    def log(self, **k):
        if k["k"] in self.KEEP:
            self.ev.append(k)

    def see_note(self, ci, frames): pass
    def see_iopub(self, ci, c, frames): pass

    def see_reply(self, ci, c, frames):
        idents, ml = self.s0.feed_identities(frames)
        m = self.s0.deserialize(ml, content=True)
        mid = m["parent_header"]["msg_id"]
        if mid in c.history:
            t = self.takes.get((ci, c.history.index(mid)))
            if t:
                self.log(k="fin", m=t[0], p=t[1], died=m["content"].get("ename") == "EngineError")

    # ------------------------------------------------------------ what engines do
    def mapped(self, args):
        self.ntok += 1
        bad = any(t in self.bad for a in args for t in a)
        ts = [t for a in args for t in a]
        m = ts[0] // 10000 if ts else 0
        self.log(k="run", m=m, e=Cur.engine.n + 1, args=args, tok=self.ntok, how="fail" if bad else "ok")
        return self.ntok, bad

    # ------------------------------------------------------------ maps
    def shape(self, ts, r):
        """a sequence, or something else that can be iterated over"""
        L = [item(t) for t in ts]
        x = r.random()
        if x < .55:
            return L
        if x < .7:
            return tuple(L)
        if x < .85:
            return iter(L)
        if x < .9:
            return (y for y in L)
        if x < .94 and all(isinstance(y, (int, tuple)) for y in L):
            return dict.fromkeys(L)
        return _Seq(L)

    def eager(self, c, kind, mode, targets, lens, dist="b", chunk=1, ordered=True, rx=False, bad=(), ret="list", block=False, how="map_async"):
        r = self.r
        self.nm += 1
        m = self.nm
        tab = self.table(c)
        ids = resolve(targets, sorted_ids(c), tab)
        items = [[m * 10000 + s * 1000 + j + 1 for j in range(n)] for s, n in enumerate(lens)]
        for p in bad:
            if p <= len(items[0]):
                self.bad.add(items[0][p - 1])
        kk = min(lens)
        as_direct = mode == "bcast" and how == "pf"
        n = kk if mode == "bcast" and not as_direct else max(lens)
        es = [tab[i] for i in ids] if mode != "lb" or targets is not None else []
        self.log(k="map", m=m, kind=kind, mode="direct" if as_direct else mode, dist=dist, chunk=chunk, n=n, kk=kk, es=es, ordered=ordered, rx=rx, items=items, ret=ret)
        seqs = [self.shape(ts, r) for ts in items]
        if mode == "lb":
            v = c.load_balanced_view(targets)
        elif mode == "bcast":
            v = c.broadcast_view(targets)
        else:
            v = c.direct_view(targets if targets is not None else "all")
        v.block = block and r.random() < .5
        f = {"map": mapjob, "list": partjob, "one": sumjob}["map" if kind == "map" else ret]
        kw = {}
        if rx:
            kw["return_exceptions"] = True
        if mode == "lb":
            if chunk != 1:
                kw["chunksize"] = chunk
            if not ordered:
                kw["ordered"] = False

        def go():
            if kind == "call" or dist == "r" or how == "pf":
                if mode == "lb":
                    kw["chunksize"] = chunk or None
                pf = v.parallel(dist=dist, block=block, **kw)(f)
                return pf(*seqs) if kind == "call" else pf.map(*seqs)
            if block:
                return v.map_sync(f, *seqs, **kw) if r.random() < .5 else v.map(f, *seqs, block=True, **kw)
            if how == "imap" and mode == "direct":
                return v.imap(f, *seqs, **kw)
            return v.map_async(f, *seqs, **kw) if r.random() < .5 or v.block else v.map(f, *seqs, **kw)
        try:
            res = go()
        except (Hang, TooLong):
            self.log(k="mapx", m=m, ok=False, ex="hang")
            return
        except Exception as e:
            if block and isinstance(e, (error.RemoteError, error.CompositeError)):
                self.log(k="res", m=m, rx=2, to=-1, **self.mexc(e))
            else:
                import traceback
                self.tb = traceback.format_exc()
                ok = (not c.ids and isinstance(e, error.NoEnginesRegistered)) or (kind == "call" and min(lens) != max(lens) and isinstance(e, ValueError))
                self.log(k="mapx", m=m, ok=ok, ex=type(e).__name__)
            return
        if block:
            self.log(k="res", m=m, rx=2, to=-1, st="val", v=self.vals(res))
        elif isinstance(res, list):
            self.log(k="mapx", m=m, ok=False, ex="no AsyncMapResult")
        elif how == "imap" and mode == "direct":
            self.o_iter(m, res)
        else:
            self.maps[m] = res

    def vals(self, v):
        if not isinstance(v, list):
            return [GARB]
        return [mcode(x) for x in v]

    def mexc(self, e):
        if isinstance(e, TimeoutError):
            return dict(st="timeout", v=[])
        if isinstance(e, error.CompositeError):
            return dict(st="comp", v=[code_of(x[0], x[1]) for x in e.elist])
        if isinstance(e, InputError):
            return dict(st="exc", v=[int(str(e))])
        if isinstance(e, error.RemoteError):
            return dict(st="exc", v=[mcode(e)])
        return dict(st="bug:" + type(e).__name__ + simtasks.tame(str(e)[:40]), v=[])

    def o_res(self, m, rx=2, to=None):
        ar = self.maps[m]
        kw = {} if rx == 2 else {"return_exceptions": bool(rx)}
        try:
            d = dict(st="val", v=self.vals(ar.get(to, **kw)))
        except (Hang, TooLong):
            d = dict(st="hang", v=[])
        except Exception as e:
            d = self.mexc(e)
        self.log(k="res", m=m, rx=rx, to=-1 if to is None else to * 1000, **d)

    def o_iter(self, m, it=None):
        ys = []
        try:
            for x in it if it is not None else self.maps[m]:
                ys.append(mcode(x))
                if self.r.random() < .3:
                    self.run(self.r.randint(1, 6))
            d = dict(st="stop", v=[])
        except (Hang, TooLong):
            d = dict(st="hang", v=[])
        except Exception as e:
            d = self.mexc(e)
        self.log(k="it", m=m, ys=ys, **d)

    def o_len(self, m):
        self.log(k="len", m=m, n=len(self.maps[m]))

    # ------------------------------------------------------------ lazy maps
    def lazy(self, c, v, n, ns, lim, ordered, rx, bad=(), broke=0, ex=False):
        self.nm += 1
        m = self.nm
        items = [[m * 10000 + s * 1000 + j + 1 for j in range(n + (s if s else 0))] for s in range(ns)]
        for p in bad:
            if p <= n:
                self.bad.add(items[0][p - 1])
        ci = self.cno[id(c)]
        info = self.lz[m] = dict(v=v, c=c, it=None, started=False, over=False)

        def gen():
            for p in range(1, n + 1):
                if broke == p:
                    self.log(k="broke", m=m)
                    raise InputError(-2000000 - p)
                self.log(k="take", m=m, p=p)
                self.takes[ci, len(c.history)] = (m, p)
                yield item(items[0][p - 1])
            self.log(k="dry", m=m)
        seqs = [gen()] + [[item(t) for t in ts] for ts in items[1:]]
        tg = v.targets
        self.log(k="lazy", m=m, n=n, lim=len(v) if lim == "auto" else lim, ordered=ordered, rx=rx, items=items, es=[self.table(c)[i] for i in tg] if tg else [])
        kw = {"return_exceptions": True} if rx else {}
        if not ordered:
            kw["ordered"] = False
        if lim != "auto":
            kw["max_outstanding"] = lim
        try:
            info["it"] = (v.executor.map if ex else v.imap)(lazyjob, *seqs, **kw)
        except (Hang, TooLong):
            self.log(k="end", m=m, st="hang", v=[])
            return m
        except Exception as e:
            self.log(k="end", m=m, **self.mexc(e))
            return m
        return m

    def o_next(self, m):
        i = self.lz[m]
        if i["it"] is None:
            return
        i["started"] = True
        try:
            x = next(i["it"])
        except StopIteration:
            self.log(k="end", m=m, st="stop", v=[])
            i["over"] = True
            return
        except (Hang, TooLong):
            self.log(k="end", m=m, st="hang", v=[])
            i["it"] = None
            return
        except Exception as e:
            self.log(k="end", m=m, **self.mexc(e))
            i["over"] = True
            return
        self.log(k="yld", m=m, v=[int(str(x)) if isinstance(x, InputError) else mcode(x)])

    def o_cancel(self, m):
        i = self.lz[m]
        if i["it"] is not None:
            i["it"].cancel()
            self.log(k="cancel", m=m)

    def o_drop(self, m):
        i = self.lz[m]
        if i["it"] is not None and i["started"]:
            if not i["over"]:
                self.log(k="end", m=m, st="dropped", v=[])
            # what happens when nobody refers to it any more
            getattr(iter(i["it"]), "close", lambda: None)()
            i["it"] = None

    def o_shut(self, v):
        ms = [m for m, i in self.lz.items() if i["v"] is v]
        self.log(k="shut0", ms=ms)
        try:
            v.executor.shutdown()
            st = "ok"
        except (Hang, TooLong):
            st = "hang"
        except Exception as e:
            st = "bug:" + type(e).__name__
        self.log(k="shut", ms=ms, st=st)

    def finish(self):
        for e in self.engines:
            e.busy = False
        for _ in range(60):
            self.settle()
            d = self.timers()
            if d is None or d > clock.t + 60:
                break
            clock.t = max(clock.t, d)
        self.settle()
        for m in list(self.maps):
            self.o_res(m, self.r.choice([0, 1, 2, 2]), 0 if self.r.random() < .5 else None)
            self.o_iter(m)
            self.o_len(m)
        for m, i in self.lz.items():
            if i["it"] is not None and not i["over"]:
                for _ in range(60):
                    self.o_next(m)
                    if i["it"] is None or i["over"]:
                        break
        for v in {id(i["v"]): i["v"] for i in self.lz.values()}.values():
            self.o_shut(v)
        self.log(k="quiet")


class _Seq:
    """has a length and can be sliced, but is neither a list nor a tuple"""
    def __init__(self, L):
        self.L = L

    def __len__(self):
        return len(self.L)

    def __getitem__(self, i):
        return self.L[i]


def scenario(seed, prof):
    r = random.Random(seed)
    cfg = {"depth": r.choice([0, 1, 1, 2]), "prof": prof}
    w = MWorld(r, cfg)
    try:
        play(w, r, prof)
        w.finish()
    except TooLong:
        w.log(k="mapx", m=0, ok=False, ex="toolong")
    return {"id": seed, "cfg": cfg, "ev": w.ev}, w


def play(w, r, prof):
    for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5])):
        w.start_engine()
    w.settle()
    cs = [w.new_client() for _ in range(r.choice([1, 1, 2]))]
    w.settle()
    views = {id(c): c.load_balanced_view() for c in cs}
    churn = prof == "churn"

    def targets(c, mode):
        x = r.random()
        if x < .5:
            return None if mode == "lb" else "all"
        return r.sample(c.ids, r.randint(1, len(c.ids)))

    def bads(n):
        x = r.random()
        if x < .55:
            return []
        return [p for p in range(1, n + 1) if r.random() < (.1 if x < .8 else .5)]

    def op_eager():
        c = r.choice(cs)
        mode = r.choice(["direct", "lb", "bcast"])
        if prof in ("direct", "lb", "bcast"):
            mode = prof
        kind = "call" if mode != "bcast" and r.random() < .3 else "map"
        dist = "r" if mode != "bcast" and r.random() < .3 else "b"
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 17])
        lens = [n] * r.choice([1, 1, 1, 2, 3])
        if len(lens) > 1 and r.random() < .15 and kind == "map" and dist == "b":
            lens = [max(0, x - r.choice([0, 1, 3])) for x in lens]
        t = targets(c, mode)
        if churn and isinstance(t, list):
            t = None if mode == "lb" else "all"
        w.eager(c, kind, mode, t, lens, dist, r.choice([1, 1, 2, 3, 4, 7]) if mode == "lb" else 0, ordered=mode != "lb" or r.random() < .6,
                rx=r.random() < .3, bad=bads(n), ret=r.choice(["list", "list", "one"]), block=r.random() < .25, how=r.choice(["map_async", "map_async", "imap", "pf"]))

    def op_lazy():
        c = r.choice(cs)
        v = views[id(c)]
        if r.random() < .15 and not churn:
            v = c.load_balanced_view(targets(c, "lb"))
        n = r.choice([0, 1, 2, 3, 4, 6, 9, 14])
        w.lazy(c, v, n, r.choice([1, 1, 2]), r.choice(["auto", "auto", 0, 1, 2, 3, 5]), r.random() < .6, r.random() < .35, bads(n) if r.random() < .6 else (),
               broke=r.randint(1, n) if n and r.random() < .12 else 0, ex=r.random() < .3)

    def op_step():
        w.run(r.choice([1, 2, 3, 5, 8, 15, 40]))

    def op_look():
        if w.maps:
            m = r.choice(list(w.maps)[-4:])
            x = r.random()
            if x < .4:
                w.o_iter(m)
            elif x < .85:
                w.o_res(m, r.choice([0, 1, 2, 2]), r.choice([None, 0, 0, .3]))
            else:
                w.o_len(m)

    def op_next():
        ms = [m for m, i in w.lz.items() if i["it"] is not None]
        if ms:
            m = r.choice(ms[-3:])
            for _ in range(r.choice([1, 1, 2, 5])):
                w.o_next(m)

    def op_stop():
        ms = [m for m, i in w.lz.items() if i["it"] is not None]
        if ms:
            m = r.choice(ms[-3:])
            r.choice([w.o_cancel, w.o_drop])(m)

    def op_shut():
        w.o_shut(views[id(r.choice(cs))])

    def op_churn():
        live = [e for e in w.engines if e.state == "up"]
        if len(live) > 1 and r.random() < .6:
            w.die(r.choice(live))
        elif len(w.engines) < 7:
            w.start_engine()

    def op_busy():
        live = [e for e in w.engines if e.state == "up"]
        e = r.choice(live)
        e.busy = not e.busy
    lz = prof in ("lazy", "churn")
    W = {"eager": .5 if prof == "lazy" else 3, "lazy": 3 if lz else 0, "step": 3, "look": 3, "next": 6 if lz else 0, "stop": .5 if lz else 0, "shut": .3 if lz else 0, "churn": .6 if churn else 0, "busy": .4}
    ops = {"eager": op_eager, "lazy": op_lazy, "step": op_step, "look": op_look, "next": op_next, "stop": op_stop, "shut": op_shut, "churn": op_churn, "busy": op_busy}
    ks = list(W)
    for _ in range(r.randint(6, 26)):
        if w.nm > 9:
            break
        ops[r.choices(ks, [W[k] for k in ks])[0]]()


def script(seed, sc):
    """a lazy map as the specification plays it"""
    r = random.Random(seed)
    w = MWorld(r, {"depth": 1, "prof": "script"})
    try:
        for _ in range(r.choice([1, 2, 3])):
            w.start_engine()
        w.settle()
        c = w.new_client()
        w.settle()
        v = c.load_balanced_view()
        bad = [i + 1 for i, b in enumerate(sc["bad"]) if b]
        m = w.lazy(c, v, sc["n"], 1, sc["lim"], sc["ordered"], sc["rx"], bad)
        for op in sc["ops"]:
            if op["k"] == "net":
                w.run(r.randint(1, 9))
            elif op["k"] == "next":
                w.o_next(m)
            elif op["k"] == "cancel":
                w.o_cancel(m)
        w.finish()
    except TooLong:
        w.log(k="mapx", m=0, ok=False, ex="toolong")
    return {"id": seed, "cfg": w.cfg, "ev": w.ev}


def main():
    out, mode, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    with open(out, "w") as fo:
        if mode == "random":
            profs = sys.argv[5].split(",")
            for i in range(count):
                t, w = scenario(seed * 100003 + i, profs[i % len(profs)])
                fo.write(json.dumps(t) + "\n")
        else:
            for i, l in enumerate(open(sys.argv[5])):
                fo.write(json.dumps(script(seed * 100003 + i, json.loads(l))) + "\n")
    cleanup()


if __name__ == "__main__":
    main()
