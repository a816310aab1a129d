"""what user code does on the engines of the simulated system; imported by both sides"""
import sys

SYS = None       # the recorder


class SimError(Exception):
    pass


def _out(o, tok):
    for j, kind in enumerate(o):
        t = tok * 10 + j
        if kind == "o":
            print(f"<{t}>", end="")
        elif kind == "e":
            print(f"<{t}>", end="", file=sys.stderr)
        elif kind == "f":
            sys.stdout.flush()
        elif kind == "d":
            SYS.display(t)
        elif kind == "p":
            SYS.data(t)


def job(k, out="", how="ok", size=0):
    """the k-th submission: produce some output, then return or raise a token that no other run has"""
    tok = SYS.ran(k, out, how)
    _out(out, tok)
    if how == "fail":
        raise SimError(f"<{tok}>")
    if how == "unmet":
        from ipyparallel.error import UnmetDependency
        raise UnmetDependency(f"<{tok}>")
    v = ("v", tok)
    if size == 1:
        return [v, b"x" * 5000]
    if size == 2:
        return {"r": v, "l": list(range(2000))}
    if size == 3:
        return [v]
    return v


def tok_of(x):
    """the token in a value that job() returned"""
    if isinstance(x, (list, tuple)) and len(x) == 2 and isinstance(x[0], str) and x[0] == "v" and isinstance(x[1], int):
        return x[1]
    if isinstance(x, list) and len(x) == 2 and tok_of(x[0]) > 0 and x[1] == b"x" * 5000:
        return tok_of(x[0])
    if isinstance(x, list) and len(x) == 1:
        return tok_of(x[0])
    if isinstance(x, dict) and set(x) == {"r", "l"} and x["l"] == list(range(2000)):
        return tok_of(x["r"])
    return 0


# ---------------------------------------------------------------- maps

def item(t):
    """an input item; what it looks like depends on its number"""
    return [t, ("i", t), {"i": t}, [b"y" * 1500, t]][t % 4]


def item_tok(x):
    if isinstance(x, int):
        return x
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "i":
        return x[1]
    if isinstance(x, dict) and set(x) == {"i"}:
        return x["i"]
    if isinstance(x, list) and len(x) == 2 and x[0] == b"y" * 1500:
        return x[1]
    return 0


class ErrVal(Exception):
    """an exception that is the value of a call, not its failure"""


def mapjob(*xs):
    tok, bad = SYS.mapped([[item_tok(x)] for x in xs])
    if bad:
        raise SimError(f"<{tok}>")
    return ErrVal(tok) if tok % 4 == 0 else ("v", tok)


def lazyjob(*xs):
    tok, bad = SYS.mapped([[item_tok(x)] for x in xs])
    if bad:
        raise SimError(f"<{tok}>")
    return ("v", tok)


def partjob(*parts):
    tok, bad = SYS.mapped([[item_tok(x) for x in p] for p in parts])
    if bad:
        raise SimError(f"<{tok}>")
    return [("v", tok * 100 + j + 1) for j in range(len(parts[0]))]


def sumjob(*parts):
    tok, bad = SYS.mapped([[item_tok(x) for x in p] for p in parts])
    if bad:
        raise SimError(f"<{tok}>")
    return {"v": tok}


# ---------------------------------------------------------------- namespaces

class Obj:
    """an object of a class that both sides can import"""
    def __init__(self, t):
        self.t = t
        self.l = [t, {"t": (t,)}]

    def ok(self):
        return self.l == [self.t, {"t": (self.t,)}]


def cat(x, y):
    if type(x) is not list or type(y) is not list:
        raise TypeError("not lists")
    return x + y


def tame(s):
    """the text without what verdicts are delimited by"""
    return "".join(c if c.isascii() and c.isalnum() or c in " _-.,:()[]'" else "_" for c in s)
