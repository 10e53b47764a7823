"""Driving the real typed sub-databases (subing.py, koming.py) for spec/Sub.tla."""
import inspect
import itertools
import json
import os

import keri_env  # noqa: F401
from keri import recording
from keri.core import coring, eventing, scheming, serdering, signing
from keri.db import dbing, koming, subing

from stores import R, REALMAX, on_abs, on_real
from vcommon import MachineryError, guard


# ------------------------------------------------------------------ typed values
def raw(i):
    return coring.Diger(ser=b"value %d" % i).raw


def _serders():
    out = []
    for i in range(5):
        s = signing.Signer(raw=raw(i))
        out.append(eventing.incept(keys=[s.verfer.qb64], isith="1", nsith="0", ndigs=[]))
    return out


def _schemers():
    out = []
    for i in range(5):
        sed = {"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "type": "object",
               "properties": {f"p{i}": {"type": "string"}}}
        out.append(scheming.Schemer(sed=sed, code=coring.MtrDex.Blake3_256))
    return out


def rec_values(kind):
    H, E, L, O = (recording.HabitatRecord, recording.EndpointRecord, recording.LocationRecord,
                  recording.OobiRecord)
    if kind == "hab":
        return H, [H(hid="EA"), H(hid="EB", name="x", watchers=["Ea", "Eb"]),
                   H(hid="EA", name="", domain="d"), H(hid="EC", mid="m", smids=["1", "2"], rmids=[]),
                   H(hid="é", name="naïve \" \\ \n", sid="s")]
    if kind == "end":
        return E, [E(), E(allowed=True), E(allowed=False, enabled=True), E(name="n"),
                   E(allowed=True, enabled=False, name="é")]
    if kind == "top":
        T = recording.TopicsRecord
        return T, [T(topics={}), T(topics={"/a": 1}), T(topics={"/a": 2, "/b": 0}),
                   T(topics={"/credential": 12}), T(topics={"x": -1})]
    S = recording.KeyStateRecord
    ee = recording.StateEERecord

    def ks(i, **kw):
        return S(vn=[1, 0], i=f"E{i}", s=f"{i:x}", p="", d=f"D{i}", f=f"{i:x}", dt="t", et="rot",
                 kt="1", k=[f"K{i}"], nt="1", n=[], bt="0", b=[], c=[],
                 ee=ee(s="0", d="d", br=[], ba=[]), di="", **kw)
    return S, [ks(i) for i in range(5)]


def _klass(obj, klas):
    return type(obj) is klas


class Kind:
    """One sub-database class with five typed values."""

    def __init__(self, name, cls, fam, vals, canon, kw=None, keys=None, single=True, b64=False):
        self.name, self.cls, self.fam, self.canon = name, cls, fam, canon
        self.kw = kw or {}
        self.vals = [(f"v{j}", v) for j, v in enumerate(vals)]
        self.ids = {canon(v): n for n, v in self.vals}
        if len(self.ids) != len(self.vals):
            raise MachineryError("values not distinct for " + name)
        self.keys = keys
        self.single = single       # a lone value may be given in place of a list
        self.b64 = b64             # separator must not be Base64

    def typed(self, n):
        return dict(self.vals)[n]

    def ident(self, obj):
        try:
            return self.ids.get(self.canon(obj)) or "?" + repr(obj)[:60]
        except Exception as ex:
            return f"?{type(obj).__name__}: {ex}"[:80]


def c_str(v):
    assert isinstance(v, str), f"not a str: {v!r}"
    return v


def c_b64(v):
    if isinstance(v, tuple):
        return "|".join(x if isinstance(x, str) else x.decode() for x in v)
    raise TypeError(f"not a tuple: {v!r}")


def c_mat(klas):
    def f(v):
        assert isinstance(v, klas), f"not {klas.__name__}: {v!r}"
        return v.qb64
    return f


def c_cat(*ks):
    def f(v):
        assert isinstance(v, tuple) and len(v) == len(ks)
        for a, k in zip(v, ks):
            assert isinstance(a, k)
        return "|".join(a.qb64 for a in v)
    return f


def c_serder(klas):
    def f(v):
        assert isinstance(v, klas)
        return bytes(v.raw)
    return f


def c_rec(klas):
    def f(v):
        assert isinstance(v, klas), f"not {klas.__name__}: {v!r}"
        return json.dumps(v if isinstance(v, dict) else koming.helping.dictify(v), sort_keys=True)
    return f


STRS = ["x", "yx", "xx", "10", "a_-"]
_kinds = None


def kinds():
    """All the classes with their values."""
    global _kinds
    if _kinds is not None:
        return _kinds
    digers = [coring.Diger(ser=b"d%d" % i) for i in range(5)]
    nums = [coring.Number(num=n) for n in (0, 1, 255, 65536, 2 ** 40)]
    numsh = [coring.Number(num=n, code=coring.NumDex.Huge) for n in (0, 1, 255, 65536, 2 ** 40)]
    daters = [coring.Dater(dts=f"2024-01-0{i + 1}T00:00:00.00000{i}+00:00") for i in range(5)]
    verfers = [signing.Signer(raw=raw(i), transferable=bool(i % 2)).verfer for i in range(5)]
    cigars = [signing.Signer(raw=raw(i)).sign(b"m") for i in range(5)]
    sers, schs = _serders(), _schemers()
    b64 = [("ab", "cd"), ("ab",), ("abcd",), ("cd",), ("0", "1")]
    cat = [(n, d) for n, d in zip(numsh, digers)]
    cat3 = [(digers[i], nums[(i * 2) % 5], verfers[(i + 1) % 5]) for i in range(5)]
    M, D, N, V = coring.Matter, coring.Diger, coring.Number, coring.Verfer
    K = []

    def add(*pa, **kw):
        K.append(Kind(*pa, **kw))

    S = subing
    # plain
    add("Suber", S.Suber, "val", STRS, c_str)
    add("SuberText", S.Suber, "val", ["", "é", "a.b", "{\"q\": 1}", " "], c_str)
    add("B64Suber", S.B64Suber, "val", b64, c_b64, b64=True)
    add("CesrSuber", S.CesrSuber, "val", digers, c_mat(D), kw=dict(klas=D))
    add("CesrSuberNumber", S.CesrSuber, "val", nums, c_mat(N), kw=dict(klas=N))
    add("CesrSuberDater", S.CesrSuber, "val", daters, c_mat(coring.Dater), kw=dict(klas=coring.Dater))
    add("CesrSuberMatter", S.CesrSuber, "val", [digers[0], nums[1], verfers[2], daters[3], cigars[4]],
        c_mat(M))
    add("CatCesrSuber", S.CatCesrSuber, "val", cat, c_cat(N, D), kw=dict(klas=(N, D)))
    add("CatCesrSuber3", S.CatCesrSuber, "val", cat3, c_cat(D, N, V), kw=dict(klas=(D, N, V)))
    add("SerderSuber", S.SerderSuber, "val", sers, c_serder(serdering.SerderKERI))
    add("SchemerSuber", S.SchemerSuber, "val", schs, c_serder(scheming.Schemer))
    for kind in ("hab", "end", "top", "state"):
        klas, vals = rec_values(kind)
        for ser in ("json", "mgpk", "cbor"):
            add(f"Komer-{kind}-{ser}", koming.Komer, "val", vals, c_rec(klas),
                kw=dict(klas=klas, kind=ser.upper()))
            if kind in ("hab", "end"):
                add(f"IoSetKomer-{kind}-{ser}", koming.IoSetKomer, "io", vals, c_rec(klas),
                    kw=dict(klas=klas, kind=ser.upper()), single=False)
                add(f"DupKomer-{kind}-{ser}", koming.DupKomer, "dup", vals, c_rec(klas),
                    kw=dict(klas=klas, kind=ser.upper()), single=False)
    # signers: the key ends with the public key, whose transferability the signer takes
    signers = [signing.Signer(raw=raw(i), transferable=bool(i % 2)) for i in range(5)]

    def c_sig(v):
        assert isinstance(v, signing.Signer)
        return v.qb64
    sigkeys = [("p", s.verfer.qb64) for s in signers[:2]] + [(s.verfer.qb64,) for s in signers[2:]]
    add("SignerSuber", S.SignerSuber, "val", signers, c_sig, keys=sigkeys)
    add("CryptSignerSuber", S.CryptSignerSuber, "val", signers, c_sig, keys=sigkeys)
    # ordinal
    add("OnSuber", S.OnSuber, "on", STRS, c_str)
    add("OnSuberText", S.OnSuber, "on", ["", "é", "a.b", "{}", " "], c_str)
    add("CesrOnSuber", S.CesrOnSuber, "on", digers, c_mat(D), kw=dict(klas=D))
    add("CesrOnSuberNumber", S.CesrOnSuber, "on", nums, c_mat(N), kw=dict(klas=N))
    # insertion ordered sets
    add("IoSetSuber", S.IoSetSuber, "io", STRS, c_str)
    add("B64IoSetSuber", S.B64IoSetSuber, "io", b64, c_b64, single=False, b64=True)
    add("CesrIoSetSuber", S.CesrIoSetSuber, "io", digers, c_mat(D), kw=dict(klas=D))
    add("CesrIoSetSuberNumber", S.CesrIoSetSuber, "io", nums, c_mat(N), kw=dict(klas=N))
    add("CatCesrIoSetSuber", S.CatCesrIoSetSuber, "io", cat3, c_cat(D, N, V),
        kw=dict(klas=(D, N, V)), single=False)
    add("SerderIoSetSuber", S.SerderIoSetSuber, "io", sers, c_serder(serdering.SerderKERI), single=False)
    add("OnIoSetSuber", S.OnIoSetSuber, "onio", STRS, c_str)
    add("B64OnIoSetSuber", S.B64OnIoSetSuber, "onio", b64, c_b64, single=False, b64=True)
    # duplicates
    add("DupSuber", S.DupSuber, "dup", STRS, c_str)
    add("CesrDupSuber", S.CesrDupSuber, "dup", digers, c_mat(D), kw=dict(klas=D))
    add("CesrDupSuberNumber", S.CesrDupSuber, "dup", nums, c_mat(N), kw=dict(klas=N))
    add("CatCesrDupSuber", S.CatCesrDupSuber, "dup", cat, c_cat(N, D), kw=dict(klas=(N, D)), single=False)
    add("IoDupSuber", S.IoDupSuber, "iodup", STRS, c_str)
    add("B64IoDupSuber", S.B64IoDupSuber, "iodup", b64, c_b64, single=False, b64=True)
    add("OnIoDupSuber", S.OnIoDupSuber, "oniodup", STRS, c_str)
    add("B64OnIoDupSuber", S.B64OnIoDupSuber, "oniodup", b64, c_b64, single=False, b64=True)
    _kinds = K
    return K


def by_fam(*fams):
    return [k for k in kinds() if k.fam in fams]


# ------------------------------------------------------------------ operations
ON = {"on", "onio", "oniodup"}
OPS = {
    "val": ["put", "pin", "get", "getDict", "rem", "cnt", "cntAll"],
    "on": ["put", "pin", "append", "getItem", "get", "rem", "remAll", "cntAll", "cnt",
           "getAllItemIter", "getAllIter"],
    "io": ["put", "pin", "add", "rem", "cnt", "cntAll", "getItem", "getItemIter", "get", "getIter",
           "getLastItem", "getLast", "getLastItemIter", "getLastIter"],
    "onio": ["put", "pin", "append", "add", "rem", "remAll", "cnt", "cntAll", "getItem",
             "getItemIter", "get", "getIter", "getLastItem", "getLast", "getAllItemIter",
             "getAllIter", "getAllLastItemIter", "getAllLastIter", "getAllItemBackIter",
             "getAllBackIter", "getAllLastItemBackIter", "getAllLastBackIter"],
    "dup": ["put", "pin", "add", "get", "getIter", "getLast", "cnt", "cntAll", "rem"],
    "iodup": ["put", "pin", "add", "rem", "cnt", "cntAll", "getItemIter", "get", "getIter", "getLast"],
    "oniodup": ["put", "pin", "append", "add", "rem", "remAll", "cnt", "cntAll", "getItemIter",
                "get", "getIter", "getLast", "getAllItemIter", "getAllIter", "getLastItemIter",
                "getLastIter", "getItemBackIter", "getBackIter"],
}
TOPS = ["trim", "cntTop", "getTopItemIter"]
MUT = {"put", "pin", "append", "add", "rem", "remAll", "trim"}
BACK = {"getAllItemBackIter", "getAllBackIter", "getAllLastItemBackIter", "getAllLastBackIter",
        "getItemBackIter", "getBackIter"}
ALL = {"getAllItemIter", "getAllIter", "getAllLastItemIter", "getAllLastIter", "getLastItemIter",
       "getLastIter", "remAll", "cntAll"} | BACK


def op(n, k=(), o=-1, i=-1, v="", vs=(), top=()):
    return {"op": n, "k": list(k), "o": o, "i": i, "v": v, "vs": list(vs), "top": list(top)}


class Sub:
    """A real sub-database of one Kind, called with abstract operations."""

    def __init__(self, db, kind, subkey, sep, rng):
        self.db, self.kind, self.subkey, self.sep, self.rng = db, kind, subkey, sep, rng
        self.crypt = kind.cls is subing.CryptSignerSuber
        if self.crypt:
            s = signing.Signer(raw=raw(77))
            self.encrypter = signing.Encrypter(verkey=s.verfer.qb64)
            self.decrypter = signing.Decrypter(seed=s.qb64b)
        self.open()

    def open(self):
        kw = dict(self.kind.kw)
        if self.sep != ".":
            kw["sep"] = self.sep
        self.u = self.kind.cls(db=self.db, subkey=self.subkey, **kw)
        sers = sorted(self.kind.vals, key=lambda nv: bytes(self.ser(nv[1])))
        self.ord = [n for n, _ in sers]

    def ser(self, v):
        r = self.u._ser(v)
        return r.encode() if isinstance(r, str) else r

    def ops(self):
        out = [n for n in OPS[self.kind.fam] + TOPS if hasattr(self.u, n)]
        if self.kind.fam in ("val", "dup") and self.kind.cls not in (
                subing.SignerSuber, subing.CryptSignerSuber):
            out.append("getFullItemIter")
        if self.crypt:
            out = [n for n in out if n != "getDict"]
        return out

    def can(self, x):
        """Whether this class offers the call at all."""
        if not hasattr(self.u, x["op"]):
            return False
        ps = inspect.signature(getattr(self.u, x["op"])).parameters
        if x["i"] > 0 and "ion" not in ps:
            return False
        return not (x["op"] == "cnt" and not x["k"] and "keys" in ps
                    and ps["keys"].default is inspect.Parameter.empty)

    # ---- arguments
    def keyform(self, k, top=False):
        """The key bytes k in one of the shapes callers use."""
        parts = bytes(k).decode().split(self.sep)
        c = self.rng.randrange(6)
        if c == 0:
            return bytes(k)
        if c == 1:
            return bytes(k).decode()
        if c == 2:
            return memoryview(bytes(k))
        if c == 3:
            return tuple(parts)
        if c == 4:
            return [p.encode() for p in parts]
        return tuple(p if self.rng.random() < .5 else p.encode() for p in parts)

    def call(self, x):
        n, u, kind = x["op"], self.u, self.kind
        f = getattr(u, n)
        names = set(inspect.signature(f).parameters)
        kw = {}
        if n in TOPS or n == "getFullItemIter":
            top = x["top"]
            if top and top[-1] == ord(self.sep) and "topive" in names and self.rng.random() < .7:
                pa = (tuple(bytes(top[:-1]).decode().split(self.sep)),)
                kw["topive"] = True
            elif not top and self.rng.random() < .5:
                pa = ()
            else:
                pa = (self.keyform(top),)
            if self.crypt and n == "getTopItemIter":
                kw["decrypter"] = self.decrypter
            return f(*pa, **kw)
        if not x["k"] and (n in ALL or n == "cnt"):
            pa = () if "keys" not in names or self.rng.random() < .5 else ("",)
        else:
            pa = (self.keyform(x["k"]),) if "keys" in names else ()
        if "on" in names and (x["o"] >= 0):
            if not (x["o"] == 0 and self.rng.random() < .3):
                kw["on"] = on_real(x["o"])
            elif n in BACK and kind.fam == "onio":
                kw["on"] = 0
        if "ion" in names and x["i"] >= 0:
            kw["ion"] = x["i"]
        if "vals" in names:
            vs = [kind.typed(v) for v in x["vs"]]
            if len(vs) == 1 and kind.single and self.rng.random() < .5:
                kw["vals"] = vs[0]
            else:
                kw["vals"] = vs if self.rng.random() < .5 else tuple(vs)
        if "val" in names and (x["v"] or n != "rem"):
            kw["val"] = kind.typed(x["v"]) if x["v"] else None
        if self.crypt and n in ("put", "pin"):
            kw["encrypter"] = self.encrypter
        if self.crypt and n == "get":
            kw["decrypter"] = self.decrypter
        return f(*pa, **kw)

    # ---- results
    def key(self, k):
        if isinstance(k, tuple) and all(isinstance(p, str) for p in k):
            return list(self.sep.join(k).encode())
        return [-1]

    def value(self, v, k=None):
        r = self.kind.ident(v)
        if isinstance(v, signing.Signer) and k is not None:
            t = coring.Verfer(qb64=bytes(k).decode().split(self.sep)[-1]).transferable
            if v.verfer.transferable != t:
                return "?transferable"
        return r

    def item(self, e):
        if isinstance(e, tuple) and len(e) == 3:
            return {"k": self.key(e[0]), "o": on_abs(e[1]), "v": self.value(e[2])}
        if isinstance(e, tuple) and len(e) == 2:
            k = self.key(e[0])
            return {"k": k, "o": -1, "v": self.value(e[1], k if k != [-1] else None)}
        return {"k": [-9], "o": -9, "v": repr(e)[:80]}

    def encode(self, x, r):
        n, fam = x["op"], self.kind.fam
        if n in ("put", "pin", "add", "rem", "remAll", "trim"):
            return R("bool", int(r)) if isinstance(r, bool) else R("other:" + repr(r)[:80])
        if n in ("cnt", "cntAll", "cntTop", "append"):
            if isinstance(r, bool) or not isinstance(r, int):
                return R("other:" + repr(r)[:80])
            return R("int", on_abs(r))
        if n == "getDict":
            if r is None:
                return R("none")
            if not isinstance(r, dict):
                return R("other:" + repr(r)[:80])
            v = self.kind.ids.get(json.dumps(r, sort_keys=True), "?" + repr(r)[:60])
            return R("val", 0, [{"k": [], "o": -1, "v": v}])
        if n == "getLast" or (n == "get" and fam in ("val", "on")):
            if r is None:
                return R("none")
            return R("val", 0, [{"k": [], "o": -1, "v": self.value(r, x["k"])}])
        if n == "getLastItem" or (n == "getItem" and fam == "on"):
            return R("none") if r is None or r == () else R("item", 0, [self.item(r)])
        if n in ("get", "getItem") and not isinstance(r, list):
            return R("other:" + repr(r)[:80])
        r = list(itertools.islice(r, 2000))     # an endless iteration shows as a long one
        if "Item" in n:
            return R("iter", 0, [self.item(e) for e in r])
        return R("iter", 0, [{"k": [], "o": -1, "v": self.value(e)} for e in r])

    def perform(self, x):
        try:
            with guard(30):
                return self.encode(x, self.call(x))
        except (KeyError, ValueError):
            return R("err")
        except MachineryError:
            raise
        except Exception as ex:
            return R(f"raised {type(ex).__name__}: {ex}"[:120])


# ------------------------------------------------------------------ random histories
PARTS = ["a", "b", "ab", "B", "zz", "K-x", "a_1", "EAb", "a-"]


def key_pool(rng, kind, sep, n=5):
    if kind.keys:
        pool = [sep.join(k) for k in kind.keys]
    else:
        parts = [p for p in PARTS if sep not in p]
        pool = []
        while len(pool) < n:
            m = rng.choice([1, 1, 2, 3])
            ps = [rng.choice(parts)] + [rng.choice([p for p in parts if p[0].isalpha()]) for _ in range(m - 1)]
            k = sep.join(ps)
            # beside hidden ordinals no key may extend another by a part that sorts among them
            if k not in pool and (kind.fam in ("val", "dup", "iodup") or not any(
                    a.startswith(b + sep) for a, b in [(k, q) for q in pool] + [(q, k) for q in pool])):
                pool.append(k)
        if rng.random() < .5:           # a key that extends another by a part
            k = pool[0] + sep + "zz"
            if k not in pool:
                pool.append(k)
    return [list(k.encode()) for k in pool]


def gen(rng, sub, keys, ons, vals):
    """A random abstract operation for one sub-database."""
    fam = sub.kind.fam
    ops = sub.ops()
    muts = [n for n in ops if n in MUT and n not in ("trim", "remAll")]
    n = rng.choice(muts) if rng.random() < .5 else rng.choice(ops)
    if n in ("trim", "remAll") and rng.random() < .6:
        n = "put"
    k = rng.choice(keys)
    if n in TOPS or n == "getFullItemIter":
        c = rng.random()
        s = bytes(k).decode().split(sub.sep)
        if c < (.03 if n == "trim" else .25):
            return op(n)
        if c < .5:
            top = list(sub.sep.join(s[:rng.randint(1, len(s))]).encode()) + [ord(sub.sep)]
        elif c < .75:
            top = k
        else:
            top = k[:rng.randint(1, len(k))]
        return op(n, top=top)
    x = op(n, k=k)
    names = set(inspect.signature(getattr(sub.u, n)).parameters)
    if "on" in names:
        x["o"] = rng.choice(ons)
        if n in BACK and fam == "onio" and rng.random() < .3:
            x["o"] = -1
    if n in ALL or n == "cnt":
        c = rng.random()
        if "keys" not in names or c < (.02 if n == "remAll" else .2):
            x["k"] = []
            x["o"] = -1 if (n in BACK or "on" not in names) else 0
        elif n not in BACK and c < .5 and "on" in names:
            x["o"] = 0
    if "ion" in names:
        x["i"] = rng.choice([0, 0, 0, 1, 2])
    elif n in ("getItem", "getItemIter", "get", "getIter", "cnt") and fam in ("io", "onio", "iodup", "oniodup"):
        x["i"] = 0
    if "vals" in names:
        lo = 1 if fam in ("dup", "iodup", "oniodup") else 0
        x["vs"] = [rng.choice(vals) for _ in range(rng.choice([lo, 1, 1, 2, 3, 5]))]
    if "val" in names and not (n == "rem" and rng.random() < .4):
        x["v"] = rng.choice(vals)
    return x


class World:
    """Several typed sub-databases in one environment, recorded."""

    def __init__(self, rng, kinds_, seps=True):
        self.rng = rng
        self.db = dbing.LMDBer(name="subs", temp=True, reopen=True)
        self.ev = []
        self.subs = []
        for j, kind in enumerate(kinds_):
            sep = "." if not seps or rng.random() < .5 else rng.choice("|/:" if kind.b64 or kind.keys else "|/:_+")
            s = Sub(self.db, kind, f"s{j}.", sep, rng)
            s.keys = key_pool(rng, kind, sep)
            many = max(len(bytes(k).decode().split(sep)) for k in s.keys) > 1
            s.ons = rng.choice([[0, 1, 2], [0, 1, 2, 3, 9], [0, 1, 10, 15, 16, 17, 255, 256]] +
                               ([] if many else [[0, 1, 998, 999, 1000]]))
            s.vals = [n for n, _ in kind.vals]
            self.subs.append(s)
        self.ev.append({"e": "world", "subs": [
            {"fam": s.kind.fam, "cls": s.kind.name, "ord": s.ord, "sep": ord(s.sep)} for s in self.subs]})

    def close(self):
        self.db.close(clear=True)

    def step(self):
        x = None
        j = self.rng.randrange(len(self.subs))
        s = self.subs[j]
        if self.rng.random() < .02:
            s.open()                       # the sub-database bound anew
        while x is None or not s.can(x):
            x = gen(self.rng, s, s.keys, s.ons, s.vals)
        self.ev.append({"e": "call", "s": j + 1, "x": x, "r": s.perform(x)})

    def run(self, steps):
        for _ in range(steps):
            self.step()
        return self.ev


def refusals(ev):
    """Calls that must be refused."""
    db = dbing.LMDBer(name="subs", temp=True, reopen=True)
    D, N = coring.Diger, coring.Number
    d, n = D(ser=b"d"), N(num=3)

    def refuse(what, f, exc):
        try:
            f()
            ok = False
        except exc:
            ok = True
        except Exception:
            ok = False
        ev.append({"e": "refuse", "what": what, "r": ok})
    S = subing
    for cls in (S.B64Suber, S.B64IoSetSuber, S.B64OnIoSetSuber, S.B64IoDupSuber, S.B64OnIoDupSuber):
        refuse(f"{cls.__name__} with a Base64 separator", lambda: cls(db=db, subkey="q.", sep="_"), ValueError)
    b = S.B64Suber(db=db, subkey="b.")
    for v in ("a.b", ("ab", "c d"), b"\xff", ("a", "b$")):
        refuse(f"B64Suber value {v!r}", lambda: b.put("k", v), ValueError)
        refuse(f"B64Suber value {v!r} (pin)", lambda: b.pin("k", v), ValueError)
    c = S.CesrSuber(db=db, subkey="c.", klas=D, strict=True)
    refuse("strict CesrSuber value of another class", lambda: c.put("k", n), TypeError)
    ct = S.CatCesrSuber(db=db, subkey="ct.", klas=(D, N), strict=True)
    refuse("strict CatCesrSuber values in another order", lambda: ct.put("k", (n, d)), TypeError)
    refuse("strict CatCesrSuber with a value too few", lambda: ct.put("k", (d,)), (ValueError, TypeError))
    refuse("strict CatCesrSuber with a value too many", lambda: ct.put("k", (d, n, d)), (ValueError, TypeError))
    for kind in ("JSON", "MGPK", "CBOR"):
        for cls in (koming.Komer, koming.IoSetKomer, koming.DupKomer):
            k = cls(db=db, subkey=f"k{kind}{cls.__name__}.", klas=recording.EndpointRecord, kind=kind)
            bad = recording.HabitatRecord(hid="E")
            one = cls is koming.Komer
            refuse(f"{cls.__name__} ({kind}) value of another class",
                   lambda: k.put("k", bad if one else [bad]), ValueError)
            refuse(f"{cls.__name__} ({kind}) pin of another class",
                   lambda: k.pin("k", bad if one else [bad]), ValueError)
            if not one:
                refuse(f"{cls.__name__} ({kind}) add of another class", lambda: k.add("k", bad), ValueError)
    refuse("SignerSuber of a class that is no signer", lambda: S.SignerSuber(db=db, subkey="s.", klas=D), ValueError)
    s = S.SignerSuber(db=db, subkey="sg.")
    sg = signing.Signer(raw=raw(1))
    s.put("nokey", sg)
    refuse("SignerSuber entry whose key ends in no public key", lambda: s.get("nokey"), Exception)
    cs = S.CryptSignerSuber(db=db, subkey="cs.")
    s1 = signing.Signer(raw=raw(78))
    enc = signing.Encrypter(verkey=s1.verfer.qb64)
    cs.put(sg.verfer.qb64, sg, encrypter=enc)
    at_rest = bytes(db.getVal(cs.sdb, sg.verfer.qb64b))
    ev.append({"e": "refuse", "what": "a seed held in the clear beside an encrypter",
               "r": sg.qb64b not in at_rest and sg.raw not in at_rest})
    other = signing.Decrypter(seed=signing.Signer(raw=raw(79)).qb64b)
    refuse("decryption with another key", lambda: cs.get(sg.verfer.qb64, decrypter=other), Exception)
    db.close(clear=True)
