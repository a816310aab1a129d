"""Send values through the serialization of the code under test.
usage: h_wire.py OUT random SEED COUNT | OUT script SEED COUNT FILE"""
import collections, datetime, functools, hashlib, json, random, sys, types
import __main__
import numpy as np
import simtasks
from jupyter_client.session import Session
import ipyparallel as ipp
from ipyparallel import Reference, serialize
from ipyparallel.controller.dependency import dependent
from ipyparallel.serialize import PrePickled, deserialize_object, pack_apply_message, serialize_object, unpack_apply_message

SENT, GOT = 0, 1


def h(b):
    return hashlib.sha1(bytes(b)).hexdigest()[:10]


def V(k, n="", c=()):
    return {"k": k, "n": str(n), "c": list(c)}


def enc(v, side):
    """a value as a tree; functions are asked what they hold once they have arrived"""
    E = lambda x: enc(x, side)
    t = type(v)
    if t in (int, float, complex, str, bool, type(None), range, datetime.date):
        return V(t.__name__, repr(v))
    if t in (bytes, bytearray, memoryview):
        return V(t.__name__, f"{len(v)}:{h(v)}")
    if t is np.ndarray:
        if v.dtype.str[0] == ">":
            # (numpy's own pickles come out in the byte order of the machine)
            v = v.astype(v.dtype.newbyteorder("="))
        if v.dtype.hasobject:
            return V("array", f"{v.dtype}{v.shape}", [E(x) for x in v.ravel().tolist()])
        return V("array", f"{v.dtype}{v.shape}{h(np.ascontiguousarray(v).tobytes())}")
    if isinstance(v, np.generic):
        return V("scalar", f"{v.dtype}{v!r}")
    if t in (list, tuple, collections.deque):
        return V(t.__name__, "", [E(x) for x in v])
    if t in (set, frozenset):
        return V(t.__name__, "", sorted((E(x) for x in v), key=json.dumps))
    if t in (dict, collections.OrderedDict):
        return V(t.__name__, "", [E(x) for kv in v.items() for x in kv])
    if t is Reference:
        return V("R", v.name)
    if t is functools.partial:
        return V("partial", "", [E(v.func)] + [E(x) for x in v.args] + [E(x) for kx in sorted(v.keywords.items()) for x in kx])
    if t is types.FunctionType:
        if v.__name__.startswith("vf_"):
            notes = sorted((k, E(x)) for k, x in (v.__annotations__ or {}).items())
            parts = [E(x) for x in v()] if side == GOT else [E(x) for x in HOLDS[v.__name__]]
            return V("function", f"{v.__name__}:{v.__doc__}", parts + [x for kx in notes for x in (V("note", kx[0]), kx[1])])
        return V("builtin", f"{v.__module__}.{v.__name__}")
    if isinstance(v, types.BuiltinFunctionType):
        return V("builtin", f"{v.__module__}.{v.__name__}")
    if t is type and v.__module__ == "__main__":
        return V("class", v.__name__, [E(v.x), E(v().m()), E([b.__name__ for b in v.__mro__])])
    if t is type:
        return V("builtin", f"{v.__module__}.{v.__name__}")
    if isinstance(v, simtasks.Obj):
        return V("object", "Obj", [E(v.t), E(v.l)])
    if t is dependent:
        return V("dependent", "", [E(v.f), E(v.df), E(list(v.dargs))])
    if isinstance(v, Exception):
        return V("exception", t.__name__, [E(x) for x in v.args])
    return V("?", t.__name__)


HOLDS = {}       # function name -> what it holds, in the order in which it tells


class Gen:
    def __init__(self, r, names):
        self.r = r
        self.n = 0
        self.names = names

    def tok(self):
        self.n += 1
        return self.n

    def array(self):
        r, t = self.r, self.tok()
        n = r.choice([0, 1, 3, 7, 200, 600])
        x = r.random()
        a = np.arange(t, t + n)
        if x < .3:
            return a
        if x < .4:
            return a.astype(r.choice(["float32", ">i4", "uint8", "complex128", "float16", "S4", "U5"]))
        if x < .48:
            return a.astype("M8[s]") if x < .44 else a.astype("m8[ms]")
        if x < .56:
            return np.arange(t, t + 24).reshape(r.choice([(4, 6), (2, 3, 4), (24, 1)]), order=r.choice("CF"))
        if x < .62:
            return a[::2] if x < .6 else a[::-1]
        if x < .68:
            return np.zeros((0, 3)) if x < .65 else np.array(t)
        if x < .76:
            z = np.zeros(n, dtype=np.dtype([("a", "i1"), ("b", "f8")], align=r.random() < .5))
            z["b"] = t
            return z
        if x < .8:
            z = np.zeros(n, dtype=[(("the title", "a"), "i4"), ("b", "M8[s]" if r.random() < .3 else "f8")])
            z["a"] = t
            return z
        if x < .84:
            z = np.zeros(2, dtype=[("a", "i4"), ("b", [("c", "O"), ("d", "i2")])])
            z["a"] = t
            return z
        if x < .9:
            z = np.empty(2, dtype=object)
            z[0], z[1] = {"q": t}, [t]
            return z
        return np.array(r.choice([[True, False], ["a", "bcd"]]))

    def scalar(self):
        r, t = self.r, self.tok()
        return r.choice([t, t + .5, f"s{t}", "ü" * t, None, True, complex(t, 1), np.float64(t), np.int16(t), range(t, t + 3), datetime.date(2020, 1, 1 + t % 28), -t, 10 ** 30 + t])

    def data(self):
        r, t = self.r, self.tok()
        n = r.choice([0, 1, 40, 1023, 1024, 1025, 5000])
        return bytes((t + i) % 256 for i in range(n))

    def leaf(self):
        x = self.r.random()
        if x < .4:
            return self.scalar()
        if x < .6:
            return self.data()
        if x < .9:
            return self.array()
        return self.r.choice([lambda: bytearray(self.data()), lambda: simtasks.Obj(self.tok()), lambda: ValueError(self.tok(), "x"), lambda: len, lambda: simtasks.item, lambda: dict])()

    def ref(self):
        r = self.r
        return Reference("nowhere" if r.random() < .04 else r.choice(self.names))

    def deep(self, d):
        """a nested value; what it holds travels inside the pickle"""
        r = self.r
        if d == 0 or r.random() < .4:
            return self.leaf()
        k = r.randint(0, 3)
        x = r.random()
        if x < .35:
            return [self.deep(d - 1) for _ in range(k)]
        if x < .5:
            return tuple(self.deep(d - 1) for _ in range(k))
        if x < .6:
            return {self.tok() for _ in range(k)} if x < .55 else frozenset(self.tok() for _ in range(k))
        if x < .9:
            return {self.key(): self.deep(d - 1) for _ in range(k)}
        return collections.OrderedDict((self.key(), self.leaf()) for _ in range(k))

    def key(self):
        t = self.tok()
        return self.r.choice([t, f"k{-t}", (t, "x"), None, f"a{t}", b"k%d" % t, 2.5 * t])

    def code(self, d=1):
        """a function, partial, class or dependent defined interactively"""
        r = self.r
        x = r.random()
        if x < .5 or d == 0:
            return self.function(d)
        if x < .8:
            f = r.choice([lambda: self.function(0), lambda: len, lambda: simtasks.item])()
            return functools.partial(f, *[self.part(d - 1) for _ in range(r.randint(0, 3))], **{f"k{self.tok()}": self.part(d - 1) for _ in range(r.randint(0, 2))})
        if x < .9:
            t = self.tok()
            v = self.leaf()
            ns = {"__module__": "__main__", "x": v if not isinstance(v, types.FunctionType) else t}
            g = {"__name__": "__main__"}
            exec("def m(self):\n  return [self.x]", g)
            ns["m"] = g["m"]
            return type(f"C{t}", (), ns)
        g = {"__name__": "__main__"}
        name = f"vf_df{self.tok()}"
        exec(f"def {name}(*a):\n return [True]", g)
        HOLDS[name] = [True]
        return dependent(self.function(0), g[name], self.leaf())

    def part(self, d):
        x = self.r.random()
        if x < .1:
            return self.ref()
        if x < .3 and d > 0:
            return self.function(d - 1)
        return self.leaf()

    def function(self, d=1):
        r = self.r
        name = f"vf_{self.tok()}"
        H = []
        dfl = {f"d{i}": self.part(d) for i in range(r.choice([0, 0, 1, 2]))}
        kwd = {f"w{i}": self.part(d) for i in range(r.choice([0, 0, 1, 2]))}
        clo = {f"c{i}": self.part(d) for i in range(r.choice([0, 0, 1, 2]))}
        H = list(dfl.values()) + list(kwd.values()) + list(clo.values())
        inner = ", ".join([f"{n}=None" for n in dfl] + (["*"] + [f"{n}=None" for n in kwd] if kwd else []))
        use = list(dfl) + list(kwd) + list(clo)
        glob = r.random() < .5
        if glob:
            use.append("gx")
            H.append(Reference("gx"))
        doc = "'doc'" if r.random() < .3 else "pass"
        src = f"def outer({', '.join(clo)}):\n def {name}({inner}):\n  {doc}\n  return [{', '.join(use)}]\n return {name}"
        g = {"__name__": "__main__"}
        exec(src, g)
        f = g["outer"](*clo.values())
        f.__qualname__ = name
        if dfl:
            f.__defaults__ = tuple(dfl.values())
        if kwd:
            f.__kwdefaults__ = kwd
        if r.random() < .2:
            f.__annotations__ = {"return": int}
        HOLDS[name] = H
        return f

    def value(self):
        r = self.r
        x = r.random()
        if x < .2:
            return self.leaf()
        if x < .3:
            return memoryview(self.data())
        if x < .4:
            return self.code()
        if x < .45:
            return self.ref()
        el = lambda: r.choice([self.leaf, self.leaf, self.leaf, self.ref, self.code, lambda: self.deep(2), lambda: memoryview(self.data())])()
        n = r.choice([0, 1, 2, 3, 4])
        if x < .7:
            L = [el() for _ in range(n)]
            return L if r.random() < .6 else tuple(L)
        if x < .9:
            return {self.key(): el() for _ in range(n)}
        if x < .95:
            # long containers are pickled as they are
            n = r.choice([62, 63, 64, 65, 130])
            y = r.random()
            L = [self.r.choice([self.scalar, self.data])() for _ in range(n - 2)] + [self.array(), self.data()]
            return L if y < .4 else tuple(L) if y < .7 else {i if i % 2 else f"k{-i}": v for i, v in enumerate(L)}
        return {r.choice([self.tok(), b"x" * r.choice([3, 2000]) + b"%d" % self.tok(), f"s{self.tok()}", (1, self.tok())]) for _ in range(n)}


class Run:
    def __init__(self, r):
        self.r = r
        self.ev = []
        self.names = ["a", "b", "gx"]
        self.gen = Gen(r, self.names)
        self.live = {}
        self.pre = {}
        self.wire = {}
        self.n = 0
        key = b"k"
        self.s1, self.s2 = Session(key=key), Session(key=key)

    def new(self, v, x=None):
        self.n += 1
        x = x or f"x{self.n}"
        self.live[x] = v
        self.ev.append(dict(k="new", x=x, v=enc(v, SENT)))
        return x

    def mutate(self):
        """the sender's variable changes in place"""
        r = self.r
        x = r.choice(list(self.live))
        v = self.live[x]
        if type(v) is list:
            v.append(self.gen.scalar())
        elif type(v) is dict:
            v[self.gen.key()] = self.gen.scalar()
        elif type(v) is bytearray and len(v) < 1000:
            v.extend(b"zz")
        else:
            return
        self.ev.append(dict(k="new", x=x, v=enc(v, SENT)))

    def prepare(self):
        x = self.r.choice(list(self.live))
        try:
            self.pre[x] = PrePickled(self.live[x])
            ok, ex = True, ""
        except Exception as e:
            ok, ex = False, type(e).__name__
        self.ev.append(dict(k="pre", x=x, ok=ok, ex=ex))
        if not ok:
            del self.pre[x]

    def send(self, xs=None, nkw=None):
        r = self.r
        self.n += 1
        i = f"m{self.n}"
        if xs is None:
            names = list(self.live)
            xs = [r.choice(names) for _ in range(r.choice([1, 1, 2, 3, 4]))]
        use = [(x, x in self.pre and r.random() < .6) for x in xs]
        get = lambda u: self.pre[u[0]] if u[1] else self.live[u[0]]
        how = "one" if len(xs) == 1 and r.random() < .5 else "apply"
        th = {} if r.random() < .5 else {"buffer_threshold": r.choice([0, 16, 200, 1024, 10 ** 6])}
        kws = []
        try:
            if how == "one":
                bufs = serialize_object(get(use[0]), **th)
            else:
                nkw = r.randint(0, len(use)) if nkw is None else nkw
                nkw = min(nkw, len(use) - 1)
                kws = r.sample(["b", "B", "zz", "a1", "_x", "k"], nkw)
                f = get(use[0])
                args = [get(u) for u in use[1:len(use) - nkw]]
                kw = {n: get(u) for n, u in zip(kws, use[len(use) - nkw:])}
                bufs = pack_apply_message(f, args, kw, **th)
            msg = self.s1.msg("apply_request")
            frames = self.s1.serialize(msg, ident=[b"x"]) + bufs
            ok, ex = True, ""
            # what is sent in place must not change until it has left
            self.wire[i] = how, kws, [bytes(b) for b in frames]
        except Exception as e:
            ok, ex = False, type(e).__name__ + " " + simtasks.tame(str(e)[:50])
        self.ev.append(dict(k="send", i=i, ok=ok, ex=ex, xs=[dict(x=x, pre=p) for x, p in use], after=[enc(self.live[x], SENT) for x, _ in use]))

    def recv(self):
        if not self.wire:
            return
        r = self.r
        i = r.choice(list(self.wire))
        how, kws, frames = self.wire[i]
        if r.random() < .7:
            del self.wire[i]
        g = {n: self.gen.leaf() for n in self.names}
        ge = {n: enc(v, GOT) for n, v in g.items()}
        g["__name__"] = "__main__"
        self.s2.digest_history.clear()
        ids, ml = self.s2.feed_identities(list(frames))
        bufs = self.s2.deserialize(ml)["buffers"]
        if r.random() < .5:
            bufs = [memoryview(b) for b in bufs]
        vs, left = [], 0
        try:
            if how == "one":
                v, rest = deserialize_object(bufs, g)
                vs, left = [v], len(rest)
            else:
                f, a, k = unpack_apply_message(bufs, g)
                vs = [f, *a, *[k[n] for n in kws]]
                left = len(set(k) - set(kws))
            st = "ok"
            vs = [enc(v, GOT) for v in vs]
        except NameError as e:
            st = "name"
        except Exception as e:
            st = "bug:" + type(e).__name__ + " " + simtasks.tame(str(e)[:50])
        self.ev.append(dict(k="recv", i=i, g=ge, st=st, vs=vs if st == "ok" else [], left=left))


def scenario(seed):
    r = random.Random(seed)
    w = Run(r)
    for _ in range(r.randint(1, 4)):
        w.new(w.gen.value())
    for _ in range(r.randint(4, 14)):
        x = r.random()
        if x < .12:
            w.new(w.gen.value())
        elif x < .2:
            w.prepare()
        elif x < .32:
            w.mutate()
        elif x < .65:
            w.send()
        else:
            w.recv()
    while w.wire:
        w.recv()
    return {"id": seed, "cfg": {}, "ev": w.ev}


def from_shape(v, g, r):
    k, c = v["k"], [from_shape(x, g, r) for x in v["c"]]
    if k == "big":
        return r.choice([lambda: bytes([g.tok() % 256]) * 3000, lambda: np.arange(g.tok(), 900)])()
    if k == "small":
        return g.scalar()
    if k == "p":
        if r.random() < .5:
            return functools.partial(len, *c)
        return functools.partial(len, **{f"k{9 - i}": x for i, x in enumerate(c)})
    if k == "l":
        return c if r.random() < .5 else tuple(c)
    if k == "d":
        return {g.key(): x for x in c}
    f = g.function(0)
    f.__defaults__ = None
    src = f"def {f.__name__}({', '.join(f'a{i}=0' for i in range(len(c)))}):\n return [{', '.join(f'a{i}' for i in range(len(c)))}]"
    ns = {"__name__": "__main__"}
    exec(src, ns)
    f = ns[f.__name__]
    f.__defaults__ = tuple(c)
    HOLDS[f.__name__] = c
    return f


def script(seed, sc):
    r = random.Random(seed)
    w = Run(r)
    args = [len] + [from_shape(v, w.gen, r) for v in sc["args"]]
    kw = [from_shape(v, w.gen, r) for v in sc["kw"]]
    xs = [w.new(v) for v in args + kw]
    if r.random() < .3:
        w.prepare()
    w.send(xs, len(kw))
    if r.random() < .3:
        w.mutate()
    w.send(xs, len(kw))
    while w.wire:
        w.recv()
    return {"id": seed, "cfg": {}, "ev": w.ev}


def main():
    out, mode, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    with open(out, "w") as fo:
        if mode == "random":
            for i in range(count):
                fo.write(json.dumps(scenario(seed * 100003 + i)) + "\n")
        else:
            for i, l in enumerate(open(sys.argv[5])):
                fo.write(json.dumps(script(seed * 100003 + i, json.loads(l))) + "\n")


if __name__ == "__main__":
    main()
