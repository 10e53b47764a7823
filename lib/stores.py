"""Driving a real keyed store (WebDBer or LMDBer) with the operations of
spec/StoreModel.tla, and encoding what it answers the way the spec does."""
import asyncio
import copy
import importlib
import itertools
import os
import sys

from vcommon import REPO, VERIF, Violation, MachineryError, guard

ABSMAX = 1000            # abstract image of MaxON (constant MAXON of the spec)
REALMAX = int("f" * 32, 16)


def on_real(o):
    return o if o < 500 else REALMAX - (ABSMAX - o)


def on_abs(o):
    if not isinstance(o, int) or isinstance(o, bool):
        return -7
    if o < 500:
        return o
    if REALMAX - o < 500:
        return ABSMAX - (REALMAX - o)
    return -8


def kb(k):
    return bytes(k)


def load_webdbing():
    """webdbing.py on its own, as the browser build imports it."""
    p = os.path.join(REPO, "src", "keri", "db")
    if p not in sys.path:
        sys.path.insert(0, p)
    sys.dont_write_bytecode = True
    return importlib.import_module("webdbing")


# ------------------------------------------------------------------ results
def R(t, n=0, its=()):
    return {"t": t, "n": n, "its": list(its)}


def V(v):
    if isinstance(v, memoryview):
        v = bytes(v)
    if isinstance(v, bytes):
        if v.isalnum() and not v.startswith(b"0x"):
            return v.decode("ascii", "replace")
        return "0x" + v.hex()
    return "?" + repr(v)


def vb(s):
    return bytes.fromhex(s[2:]) if s.startswith("0x") else s.encode()


def K(k):
    if isinstance(k, memoryview):
        k = bytes(k)
    return list(k) if isinstance(k, bytes) else [-1]


def enc_item(x):
    if x is None or x == ():
        return R("none")
    if isinstance(x, tuple):
        if len(x) == 3:
            return R("item", 0, [{"k": K(x[0]), "o": on_abs(x[1]), "v": V(x[2])}])
        if len(x) == 2:
            return R("item", 0, [{"k": K(x[0]), "o": -1, "v": V(x[1])}])
    return R("other:" + repr(x)[:80])


def enc_iter(it):
    out = []
    for x in it:
        e = enc_item(x)
        out.append(e["its"][0] if e["its"] else {"k": [-9], "o": -9, "v": repr(x)[:80]})
    return R("iter", 0, out)


def enc_bool(x):
    return R("bool", int(x)) if isinstance(x, bool) else R("other:" + repr(x)[:80])


def enc_int(x):
    if isinstance(x, bool) or not isinstance(x, int):
        return R("other:" + repr(x)[:80])
    return R("int", on_abs(x))


def enc_val(x):
    if x is None:
        return R("none")
    if isinstance(x, (bytes, memoryview)):
        return R("val", 0, [{"k": [], "o": -1, "v": V(x)}])
    return R("other:" + repr(x)[:80])


BOOL = {"putVal", "setVal", "remVal", "remTop", "putOnVal", "pinOnVal", "remOn", "remOnAll",
        "putIoSetVals", "addIoSetVal", "pinIoSetVals", "remIoSet", "remIoSetVal",
        "putOnIoSetVals", "addOnIoSetVal", "pinOnIoSetVals", "remOnIoSet", "remOnIoSetVal",
        "remOnAllIoSet"}
INT = {"cntTop", "cntAll", "cntOnAll", "appendOnVal", "cntIoSet", "cntOnIoSet",
       "cntOnAllIoSet", "appendOnIoSetVals"}
VAL = {"getVal", "getOnVal"}
ITEM = {"getOnItem", "getIoSetLastItem", "getOnIoSetLastItem"}
MUTATORS = {"putVal", "setVal", "remVal", "remTop", "putOnVal", "pinOnVal", "appendOnVal",
            "remOn", "remOnAll", "putIoSetVals", "addIoSetVal", "pinIoSetVals", "remIoSet",
            "remIoSetVal", "putOnIoSetVals", "addOnIoSetVal", "pinOnIoSetVals",
            "appendOnIoSetVals", "remOnIoSet", "remOnIoSetVal", "remOnAllIoSet"}

FAMOPS = {
    "val": ["putVal", "setVal", "getVal", "remVal", "getTopItemIter"],
    "on": ["putOnVal", "pinOnVal", "appendOnVal", "getOnVal", "getOnItem", "remOn",
           "remOnAll", "cntOnAll", "getOnAllItemIter", "getOnTopItemIter"],
    "io": ["putIoSetVals", "pinIoSetVals", "addIoSetVal", "remIoSetVal", "remIoSet",
           "getIoSetLastItem", "getIoSetLastItemIterAll", "cntIoSet", "getIoSetItemIter",
           "getTopIoSetItemIter"],
    "onio": ["putOnIoSetVals", "pinOnIoSetVals", "appendOnIoSetVals", "addOnIoSetVal",
             "remOnIoSetVal", "remOnIoSet", "getOnIoSetLastItem", "remOnAllIoSet",
             "cntOnAllIoSet", "getOnAllIoSetItemIter", "getOnAllIoSetLastItemIter",
             "cntOnIoSet", "getOnIoSetItemIter", "getOnAllIoSetItemBackIter",
             "getOnAllIoSetLastItemBackIter", "getOnTopIoSetItemIter"],
}
COMMON = ["remTop", "cntTop", "cntAll"]


def call(d, db, x, sep=None):
    """Issue one abstract op against the real store. Returns the raw result."""
    n = x["op"]
    k, o, i = kb(x["k"]), x["o"], x["i"]
    v = vb(x["v"])
    vs = [vb(a) for a in x["vs"]]
    top = kb(x["top"])
    s = {} if sep is None else {"sep": sep}
    ro = on_real(o) if o >= 0 else o
    f = getattr(d, n, None)
    if n in ("putVal", "setVal"):
        return f(db, k, v)
    if n in ("getVal", "remVal"):
        return f(db, k)
    if n in ("remTop", "cntTop", "getTopItemIter"):
        return f(db, top)
    if n == "cntAll":
        return f(db)
    if n in ("putOnVal", "pinOnVal"):
        return f(db, k, ro, v, **s)
    if n == "appendOnVal":
        return f(db, k, v, **s)
    if n in ("getOnVal", "getOnItem", "remOn", "remOnAll", "cntOnAll", "getOnAllItemIter",
             "remOnAllIoSet", "getOnAllIoSetItemIter", "getOnAllIoSetLastItemIter",
             "getOnIoSetLastItem"):
        return f(db, k, ro, **s)
    if n == "cntOnAllIoSet":
        return f(db, k, on=ro, **s)
    if n in ("getOnAllIoSetItemBackIter", "getOnAllIoSetLastItemBackIter"):
        return f(db, k, None if o == -1 else ro, **s)
    if n in ("getOnTopItemIter", "getTopIoSetItemIter", "getOnTopIoSetItemIter"):
        return f(db, top, **s)
    if n in ("putIoSetVals", "pinIoSetVals"):
        return f(db, k, vs, **s)
    if n in ("addIoSetVal",):
        return f(db, k, v, **s)
    if n == "remIoSetVal":
        return f(db, k, v, **s)
    if n in ("remIoSet", "getIoSetLastItem", "getIoSetLastItemIterAll"):
        return f(db, k, **s)
    if n in ("cntIoSet", "getIoSetItemIter"):
        return f(db, k, ion=i, **s)
    if n in ("putOnIoSetVals", "pinOnIoSetVals"):
        return f(db, k, on=ro, vals=vs, **s)
    if n == "appendOnIoSetVals":
        return f(db, k, vs, **s)
    if n in ("addOnIoSetVal", "remOnIoSetVal"):
        return f(db, k, on=ro, val=v, **s)
    if n == "remOnIoSet":
        return d.remOnIoSetVal(db, k, on=ro, **s)
    if n in ("cntOnIoSet", "getOnIoSetItemIter"):
        return f(db, k, on=ro, ion=i, **s)
    raise MachineryError("unknown op " + n)


def perform(d, db, x, sep=None):
    """Issue one op; encode its result as the spec does."""
    n = x["op"]
    try:
        with guard(30):
            raw = call(d, db, x, sep)
            if hasattr(raw, "__next__"):
                raw = iter(list(itertools.islice(raw, 5000)))
        if n in BOOL:
            return enc_bool(raw)
        if n in INT:
            return enc_int(raw)
        if n in VAL:
            return enc_val(raw)
        if n in ITEM:
            return enc_item(raw)
        return enc_iter(raw)
    except (KeyError, ValueError):
        return R("err")
    except MachineryError:
        raise
    except Exception as ex:
        return R(f"raised {type(ex).__name__}: {ex}"[:120])


# ------------------------------------------------------------------ backends
class Handle:
    """One namespace of simulated browser storage: local writes, async commit."""

    def __init__(self, back, ns):
        self.back, self.ns = back, ns
        self.local = dict(back.persisted.get(ns, {}))

    def get(self, key, default=None):
        return self.local.get(key, default)

    def __getitem__(self, key):
        return self.local[key]

    def __setitem__(self, key, value):
        self.local[key] = value

    def __delitem__(self, key):
        del self.local[key]

    def __contains__(self, key):
        return key in self.local

    def keys(self):
        return self.local.keys()

    async def sync(self):
        data = dict(self.local)
        if self.back.hook is not None:
            await self.back.hook(self, "before")
        self.back.persisted[self.ns] = data
        if self.back.hook is not None:
            await self.back.hook(self, "after")


class Backend:
    def __init__(self, persisted=None):
        self.persisted = copy.deepcopy(persisted or {})
        self.hook = None

    async def open(self, ns):
        return Handle(self, ns)


_loop = None


def run(coro):
    global _loop
    if _loop is None:
        _loop = asyncio.new_event_loop()
    return _loop.run_until_complete(coro)


class Web:
    """A fresh WebDBer with plain stores, for the purely in-memory contract."""
    kind = "web"

    def __init__(self, stores=("s0.",), dupsort=False):
        self.W = load_webdbing()
        self.stores, self.dupsort = stores, dupsort
        self.wipe()

    def wipe(self):
        self.back = Backend()
        self.d = run(self.W.WebDBer.open("verif", list(self.stores),
                                         storageOpener=self.back.open))
        self.dbs = [self.d.env.open_db(s, dupsort=self.dupsort) for s in self.stores]

    def close(self):
        self.d.close()


class Lmdb:
    """A fresh LMDBer over the in-memory LMDB stand-in."""
    kind = "lmdb"

    def __init__(self, stores=("s0.",), dupsort=False):
        import keri_env  # noqa
        from keri.db import dbing
        self.d = dbing.LMDBer(name="verif", temp=True, reopen=True)
        self.dbs = [self.d.env.open_db(key=s.encode(), dupsort=dupsort) for s in stores]

    def wipe(self):
        for db in self.dbs:
            self.d.remTop(db)

    def close(self):
        self.d.close(clear=True)


# ------------------------------------------------------------------ replay
def content_ops(fam):
    """Calls that together show a family's whole content."""
    n = {"val": "getTopItemIter", "on": "getOnTopItemIter", "io": "getTopIoSetItemIter",
         "onio": "getOnTopIoSetItemIter"}[fam]
    return {"op": n, "k": [], "o": -1, "i": -1, "v": "", "vs": [], "top": []}


def key_of(entries):
    return repr(entries)


def replay_graph(c, fam, edges, store, sep=None):
    """Drive the real store through every explored transition of the model.

    edges: dicts a (source content), x (call), r (result), b (target content).
    Every source content is reached by a path of the model's own calls from the
    empty store; there every reading call is made, and then each mutating call
    is made from that content in turn, with the content compared afterwards.
    """
    sepb = None if sep is None else bytes([sep])
    by = {}
    for e in edges:
        by.setdefault(key_of(e["a"]), []).append(e)
    # breadth-first tree of shortest call paths
    root = key_of([])
    path = {root: []}
    frontier = [root]
    while frontier:
        nxt = []
        for a in frontier:
            for e in by.get(a, ()):
                b = key_of(e["b"])
                if b not in path:
                    path[b] = path[a] + [e]
                    nxt.append(b)
        frontier = nxt
    look = content_ops(fam)
    steps = traces = 0

    def view(entries):
        return R("iter", 0, [{"k": e["k"], "o": e["o"], "v": e["v"]} for e in entries])

    def fail(e, got, want, trail):
        raise Violation(
            f"{store.kind} store, family {fam}: {e['x']['op']} answered {got}, "
            f"the specification says {want}", op=e["x"], before=e["a"], got=got, want=want,
            trail=[t["x"] for t in trail])

    def go(p):
        nonlocal steps
        store.wipe()
        for t in p:
            got = perform(store.d, store.dbs[0], t["x"], sepb)
            steps += 1
            if got != t["r"]:
                fail(t, got, t["r"], p)

    for a, es in by.items():
        if a not in path:
            raise MachineryError("unreachable source content in the model dump")
        p = path[a]
        go(p)
        traces += 1
        reads = [e for e in es if e["a"] == e["b"] and e["x"]["op"] not in MUTATORS]
        moves = [e for e in es if not (e["a"] == e["b"] and e["x"]["op"] not in MUTATORS)]
        for e in reads:
            got = perform(store.d, store.dbs[0], e["x"], sepb)
            steps += 1
            if got != e["r"]:
                fail(e, got, e["r"], p)
        dirty = False
        for e in moves:
            if dirty:
                go(p)
                traces += 1
            got = perform(store.d, store.dbs[0], e["x"], sepb)
            steps += 1
            if got != e["r"]:
                fail(e, got, e["r"], p)
            seen = perform(store.d, store.dbs[0], look, sepb)
            if seen != view(e["b"]):
                fail(dict(e, x=dict(e["x"], op=e["x"]["op"] + " (content afterwards)")),
                     seen, view(e["b"]), p)
            dirty = e["a"] != e["b"]
    c.count("replayed_calls", steps)
    c.traces(traces)
    return steps, traces
