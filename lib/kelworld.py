"""Worlds of key events for spec/Kel.tla: random tables of events, their concrete
serializations and signatures, and a driver that delivers them to the real validator and
records what it did."""
import json
import os
from fractions import Fraction

import keri_env  # noqa: F401
import keri
import lmdb
from keri.core import coring, counting, eventing, indexing, parsing, serdering, signing
from keri.core.structing import SealSource
from keri.db import basing
from keri.kering import Kinds, Vrsn_1_0, Vrsn_2_0, versify, Protocols
from vcommon import guard

Dead = {"live": False}
SIGNERS = {}


def signer(k, transferable=True):
    """The signer of key id k (ids from 1)."""
    key = (k, transferable)
    if key not in SIGNERS:
        raw = coring.Diger(ser=b"key %d" % k).raw
        SIGNERS[key] = signing.Signer(raw=raw, transferable=transferable)
    return SIGNERS[key]


NEXTS = {}


def nextdig(k):
    if k not in NEXTS:
        NEXTS[k] = coring.Diger(ser=signer(k).verfer.qb64b).qb64
    return NEXTS[k]


# ---------------------------------------------------------------- thresholds
WSITHS = [
    ["1/2", "1/2"], ["1/2", "1/2", "1/2"], ["1/3", "1/3", "1/3", "1/3"], ["1", "1"],
    ["1/2", "1/3", "1/4", "1/4"], [["1/2", "1/2"], ["1"]], [["1/2", "1/2", "1/2"], ["1/2", "1/2"]],
    [{"1/2": ["1/2", "1/2"]}, "1/2", {"1/2": ["1"]}],
    [["1/2", {"1/2": ["1/2", "1/2", "1/2"]}], ["1", "0"]],
    ["1/2", "1/2", "0"], ["2/3", "2/3"], [["1"], ["1"]],
]


def _thold(sith):
    """Abstract threshold of a sith value."""
    if isinstance(sith, int):
        return {"kind": "num", "n": sith}
    if isinstance(sith, str):
        return {"kind": "num", "n": int(sith, 16)}
    clauses = sith if sith and isinstance(sith[0], list) else [sith]
    den = 1
    flat = []
    for cl in clauses:
        row = []
        for el in cl:
            if isinstance(el, dict):
                (k, v), = el.items()
                row.append((Fraction(k), [Fraction(x) for x in v]))
            else:
                row.append((Fraction(el), []))
        flat.append(row)
        for k, v in row:
            for f in [k] + v:
                den = den * f.denominator // __import__("math").gcd(den, f.denominator)
    return {"kind": "w", "d": den,
            "c": [[{"k": int(k * den), "v": [int(x * den) for x in v]} for k, v in row]
                  for row in flat]}


_TH = {}


def thold(sith):
    return json.loads(json.dumps(_thold(sith)))


def span(sith):
    t = _thold(sith)
    if t["kind"] == "num":
        return t["n"]
    return sum(max(1, len(el["v"])) for cl in t["c"] for el in cl)


def thabs(tholder):
    """Abstract value of a Tholder the implementation holds."""
    return thold(tholder.sith)


# ---------------------------------------------------------------- worlds
PROFILE = dict(aids=(2, 3), events=(7, 14), keys=(1, 3), weighted=.2, wits=.3, deleg=.25,
               own=.1, fork=.35, bad=.15, noise=.35, partial=.35, shuffle=.5, dup=.3, esc=.25,
               rct=.3, local=.3, eo=.06, dnd=.05, nontrans=.05, nonext=.05, kinds=True, drop=.1,
               seal=.85, big=.03, long=.03, gv2=.2, v2=.4, ixn=.5, cesr=.3, trc=.12, twin=.3, graft=.15)


class World:
    """A random world: self.ev is the abstract table, self.ser the serders."""

    def __init__(self, rng, **over):
        self.rng = rng
        self.o = o = dict(PROFILE, **over)
        self.ev = []          # abstract events (dicts with python extras under "_")
        self.snap = []        # author state after each event
        self.frm = {}         # the event each was made to follow
        self.nk = 0
        self.ser = {}
        na = rng.randint(*o["aids"])
        self.np = na
        self.own = set()
        self.big = rng.random() < o["big"]       # thresholds and indices past one digit
        self.wpool = [self.newkey() for _ in range(20 if self.big else 5)]
        self.incepts = {}
        self.tips = {p: [] for p in range(1, na + 1)}
        target = rng.randint(*o["events"])
        for p in range(1, na + 1):
            di = 0
            if p > 1 and rng.random() < o["deleg"]:
                di = rng.randint(1, p - 1)
                if self.ev[self.incepts[di]]["xf"] is False:
                    di = 0
            self.icp(p, di)
        if rng.random() < o["long"]:             # sequence numbers past one digit
            p = rng.randint(1, na)
            for _ in range(rng.randint(15, 18)):
                self.extend(p, frm=self.tips[p][-1], ilk="ixn", clean=True)
            target += len(self.ev)
        while len(self.ev) < target:
            p = rng.randint(1, na)
            self.extend(p)
        # every delegated event gets a real chance of being sealed
        for x, e in enumerate(list(self.ev)):
            if e["t"] in ("dip", "drt") and e["di"] and rng.random() < o["seal"]:
                if not any(s["x"] == x + 1 for f in self.ev for s in f["a"]):
                    self.extend(e["di"], must=[x + 1])
        for p in range(1, na + 1):
            di = self.ev[self.incepts[p]]["di"]
            if di and rng.random() < o["twin"]:
                # rotations of the same place, sealed in one event of the delegator
                frm = self.tips[p][-1]
                both = [self.extend(p, frm=frm, ilk="drt") for _ in range(2)]
                rng.shuffle(both)
                self.extend(di, must=both)
        for p in range(1, na + 1):
            if rng.random() < o["graft"]:
                self.graft(p)
        for p in range(1, na + 1):
            if rng.random() < o["own"]:
                self.own.add(p)
        if rng.random() < o["own"] / 2:
            self.own.add(1000 + rng.choice(self.wpool))
        self.build()

    def newkey(self):
        self.nk += 1
        return self.nk

    def keyset(self, allow_empty=False):
        rng, o = self.rng, self.o
        if rng.random() < o["weighted"]:
            sith = rng.choice(WSITHS)
            n = span(sith) + (1 if rng.random() < .2 else 0)
        else:
            n = rng.randint(*o["keys"])
            sith = rng.randint(1, n)
            if self.big and rng.random() < .4:
                n = rng.randint(10, 17)
                sith = rng.choice((rng.randint(1, n), rng.randint(10, n)))
        return [self.newkey() for _ in range(n)], sith

    def witset(self, base=(), n=None):
        rng = self.rng
        pool = [w for w in self.wpool if w not in base]
        n = (rng.randint(10, 14) if self.big and rng.random() < .6 else rng.randint(1, 3)) if n is None else n
        return rng.sample(pool, min(n, len(pool)))

    def add(self, e, st):
        self.ev.append(e)
        self.snap.append(st)
        x = len(self.ev)
        return x

    def seals(self, p, must=()):
        """Seals an event of p carries."""
        rng = self.rng
        a = []
        for x in must:
            e = self.ev[x - 1]
            a.append({"p": e["p"], "s": e["s"], "x": x})
        for x, e in enumerate(self.ev):
            if e["t"] in ("dip", "drt") and e["di"] == p and x + 1 not in must:
                done = any(s["x"] == x + 1 for f in self.ev for s in f["a"])
                if rng.random() < (.12 if done else .6):
                    a.append({"p": e["p"], "s": e["s"] + (1 if rng.random() < .05 else 0),
                              "x": x + 1 if rng.random() > .05 else 0})
        if rng.random() < .1:
            a.append({"p": rng.randint(1, self.np), "s": rng.randint(0, 3), "x": 0})
        rng.shuffle(a)
        return a

    def icp(self, p, di):
        rng, o = self.rng, self.o
        k, kt = self.keyset()
        n, nt = self.keyset()
        xf = True
        basic = False
        if not di and len(k) == 1 and kt == 1 and rng.random() < .3:
            basic = True
        if not di and rng.random() < o["nontrans"]:
            k, kt, n, nt, basic, xf = [self.newkey()], 1, [], 0, True, False
        elif rng.random() < o["nonext"]:
            n, nt = [], 0
        b = self.witset() if xf and rng.random() < o["wits"] else []
        bt = rng.randint(1, len(b)) if b else 0
        c = (["EO"] if rng.random() < o["eo"] else []) + (["DND"] if rng.random() < o["dnd"] else [])
        e = dict(p=p, t="dip" if di else "icp", s=0, pr=0, k=k, kt=kt, n=n, nt=nt, b=b, br=[],
                 ba=[], bt=bt, c=c, a=self.seals(p) if xf and rng.random() < .3 else [], di=di, xf=xf, basic=basic)
        bad = rng.random() < o["bad"] * .3 and p > 1
        if bad:
            self.spoil(e)
        x = self.add(e, dict(k=k, kt=kt, n=n, nt=nt, b=b, bt=bt, di=di, s=0))
        self.tips[p].append(x)
        self.incepts[p] = x - 1

    def spoil(self, e):
        """Make an event wrong in some way."""
        rng = self.rng
        w = rng.choice(["bt", "sn", "pr", "pr", "keys", "wits", "ilk", "sith", "next"])
        if w == "bt":
            e["bt"] = e["bt"] + rng.choice([1, 3]) if rng.random() < .7 else 0
        elif w == "sn":
            e["s"] = max(0, e["s"] + rng.choice([-1, 1, 2]))
        elif w == "pr" and e["pr"]:
            near = [y for y, f in enumerate(self.ev, 1)
                    if f["p"] == e["p"] and f["s"] == e["s"] - 1 and y != e["pr"]]
            if near and rng.random() < .7:
                e["pr"] = rng.choice(near)
            else:
                e["pr"] = rng.choice([0, rng.randint(1, len(self.ev))])
        elif w == "keys" and e["k"]:
            e["k"] = [self.newkey() for _ in e["k"]]
        elif w == "wits":
            if e["t"] in ("icp", "dip"):
                if e["b"]:
                    e["b"] = e["b"] + e["b"][:1]
            elif e["t"] in ("rot", "drt"):
                e[rng.choice(["br", "ba"])] += self.witset(n=1)
        elif w == "ilk" and e["t"] in ("rot", "drt"):
            e["t"] = "rot" if e["t"] == "drt" else "drt"
        elif w == "sith" and e["k"] and isinstance(e["kt"], int):
            e["kt"] = len(e["k"]) + 1
        elif w == "next" and e["n"]:
            e["n"] = []
            e["nt"] = 0

    def graft(self, p):
        """A recovery, and later rotations that name what it superseded."""
        rng = self.rng
        base = self.tips[p][-1]
        a = self.extend(p, frm=base, ilk="ixn", clean=True)
        if rng.random() < .5:
            a = self.extend(p, frm=a, ilk="ixn", clean=True)
            base = rng.choice([base, a - 1])
        r = self.extend(p, frm=base, ilk=None if rng.random() < .1 else
                        "drt" if self.snap[base - 1]["di"] else "rot", clean=True)
        b = self.extend(p, frm=r, ilk="ixn", clean=True)
        for _ in range(rng.randint(1, 2)):
            frm = rng.choice([r, b])
            q = self.extend(p, frm=frm, ilk=rng.choice(["ixn", "drt" if self.snap[r - 1]["di"] else "rot",
                                                        "drt" if self.snap[r - 1]["di"] else "rot"]), clean=True)
            near = [y for y, f in enumerate(self.ev, 1)
                    if f["p"] == p and f["s"] == self.ev[q - 1]["s"] - 1 and y != frm]
            if near and rng.random() < .8:
                self.ev[q - 1]["pr"] = rng.choice(near)

    def extend(self, p, must=(), frm=None, ilk=None, clean=False):
        rng, o = self.rng, self.o
        tips = self.tips[p]
        if frm is None:
            if rng.random() < o["fork"]:
                # an alternative somewhere in this identifier's tree
                mine = [x for x in range(1, len(self.ev) + 1) if self.ev[x - 1]["p"] == p]
                frm = rng.choice(mine)
            else:
                frm = tips[-1]
        st = self.snap[frm - 1]
        s = st["s"] + 1
        if ilk is None:
            ilk = "ixn" if rng.random() < o["ixn"] else ("drt" if st["di"] else "rot")
        if ilk == "ixn":
            e = dict(p=p, t="ixn", s=s, pr=frm, k=[], kt=0, n=[], nt=0, b=[], br=[], ba=[], bt=0,
                     c=[], a=self.seals(p, must), di=0, xf=True)
            new = dict(st, s=s)
        else:
            k, kt = list(st["n"]), st["nt"]
            if not k:
                k, kt = self.keyset()
            elif rng.random() < .3:
                # reserve keys left out, new keys brought in
                c = rng.random()
                if c < .4:
                    k = k + [self.newkey()]
                elif c < .7:
                    k = [self.newkey()] + k
                else:
                    rng.shuffle(k)
                if rng.random() < .5 and len(k) > 1:
                    k.pop(rng.randrange(len(k)))
                if not isinstance(kt, int) or kt > len(k) or rng.random() < .5:
                    kt = rng.randint(1, len(k))
            n, nt = self.keyset()
            if rng.random() < o["nonext"]:
                n, nt = [], 0
            br, ba = [], []
            b = list(st["b"])
            if rng.random() < o["wits"]:
                br = rng.sample(b, rng.randint(0, len(b)))
                ba = self.witset(base=b, n=rng.randint(0, 2))
                b = [w for w in b if w not in br] + ba
            bt = rng.randint(1, len(b)) if b else 0
            e = dict(p=p, t=ilk, s=s, pr=frm, k=k, kt=kt, n=n, nt=nt, b=[], br=br, ba=ba, bt=bt,
                     c=[], a=self.seals(p, must), di=st["di"], xf=True)
            new = dict(k=k, kt=kt, n=n, nt=nt, b=b, bt=bt, di=st["di"], s=s)
        if not must and not clean and rng.random() < o["bad"]:
            self.spoil(e)
        e["xf"] = self.ev[self.incepts[p]]["xf"]
        # signers' view: keys an author would sign with
        x = self.add(e, new)
        self.frm[x] = frm
        if frm == tips[-1] or rng.random() < .6:
            tips.append(x)
        return x

    # ---- concrete
    def said(self, x):
        return self.ser[x].said if x else coring.Diger(ser=b"nothing %d" % self.rng.randrange(99)).qb64

    def pre(self, p):
        return self.pres[p]

    def build(self):
        self.pres = {}
        self.vs = {}
        for x in range(1, len(self.ev) + 1):
            e = self.ev[x - 1]
            e.setdefault("basic", False)
        done = set()
        for x in range(1, len(self.ev) + 1):
            self.make(x)
        self.bysaid = {s.said: x for x, s in self.ser.items()}
        self.digs = {nextdig(k): k for k in range(1, self.nk + 1)}
        self.keyids = {}
        for k in range(1, self.nk + 1):
            for t in (True, False):
                self.keyids[signer(k, t).verfer.qb64] = k
        self.preid = {v: p for p, v in self.pres.items()}
        self.sigcache = {}

    def wit(self, w):
        return signer(w, False).verfer.qb64

    def make(self, x):
        if x in self.ser:
            return
        e = self.ev[x - 1]
        rng = self.rng
        kind = rng.choice([Kinds.json, Kinds.json, Kinds.cbor, Kinds.mgpk]) if self.o["kinds"] else Kinds.json
        two = self.o.get("v2") and rng.random() < self.o["v2"]
        pv = Vrsn_2_0 if two else Vrsn_1_0
        if two:
            if rng.random() < self.o["cesr"]:
                kind = Kinds.cesr
            v = versify(pvrsn=pv, gvrsn=pv, kind=kind, size=0)
        else:
            v = versify(pvrsn=pv, kind=kind, size=0)
        self.vs[x] = pv
        T = lambda n: n if isinstance(n, list) else "%x" % n
        sealed = []
        for s in e["a"]:
            sealed.append(dict(i=self.pres.get(s["p"]) or self.fakepre(), s="%x" % s["s"], d=self.said(s["x"])))
        xf = e["xf"]
        keys = [signer(k, xf).verfer.qb64 for k in e["k"]]
        if e["t"] in ("icp", "dip"):
            sad = dict(v=v, t=e["t"], d="", i="", s="%x" % e["s"], kt=T(e["kt"]), k=keys, nt=T(e["nt"]),
                       n=[nextdig(k) for k in e["n"]], bt="%x" % e["bt"], b=[self.wit(w) for w in e["b"]],
                       c=list(e["c"]), a=sealed)
            saids = None
            if e["basic"]:
                sad["i"] = keys[0]
            else:
                saids = {"i": coring.MtrDex.Blake3_256}
            if e["t"] == "dip":
                sad["di"] = self.pres[e["di"]]
            s = serdering.SerderKERI(sad=sad, makify=True, saids=saids, verify=False)
            if x - 1 == self.incepts[e["p"]]:
                self.pres[e["p"]] = s.pre
        else:
            sad = dict(v=v, t=e["t"], d="", i=self.pres[e["p"]], s="%x" % e["s"], p=self.said(e["pr"]))
            if e["t"] in ("rot", "drt"):
                sad.update(kt=T(e["kt"]), k=keys, nt=T(e["nt"]), n=[nextdig(k) for k in e["n"]],
                           bt="%x" % e["bt"], br=[self.wit(w) for w in e["br"]], ba=[self.wit(w) for w in e["ba"]])
                if two:
                    sad["c"] = []
            sad["a"] = sealed
            s = serdering.SerderKERI(sad=sad, makify=True, verify=False)
        if s.said in {t.said for t in self.ser.values()}:
            raise Retry
        self.ser[x] = s

    def fakepre(self):
        return coring.Diger(ser=b"nobody").qb64

    def table(self):
        """The world line of a trace."""
        evs = []
        for e in self.ev:
            th = lambda v: thold(v)
            evs.append({"p": e["p"], "t": e["t"], "s": e["s"], "pr": e["pr"], "k": e["k"], "kt": th(e["kt"]),
                        "n": e["n"], "nt": th(e["nt"]), "b": [1000 + w for w in e["b"]],
                        "br": [1000 + w for w in e["br"]], "ba": [1000 + w for w in e["ba"]], "bt": e["bt"],
                        "c": list(e["c"]), "a": e["a"], "di": e["di"] if e["t"] == "dip" else 0, "xf": e["xf"],
                        "dg": not self.ev[self.incepts[e["p"]]]["basic"]})
        return {"e": "world", "np": self.np, "own": sorted(self.own), "ev": evs}

    # ---- attachments
    def signers_of(self, x):
        """[(index, key)] an honest controller signs x with, and prior-next positions."""
        e = self.ev[x - 1]
        if e["t"] == "ixn":
            return list(enumerate(self.snap[self.frm[x] - 1]["k"])), []
        prev = []
        if e["t"] in ("rot", "drt"):
            prev = self.snap[self.frm[x] - 1]["n"]
        return list(enumerate(e["k"])), prev

    def honest_sigs(self, x):
        """Full set of signature records for x."""
        ks, prev = self.signers_of(x)
        out = []
        for i, k in ks:
            o = prev.index(k) if k in prev else -1
            out.append((k, i, o if prev else i))
        return out

    def wits_of(self, x):
        e = self.ev[x - 1]
        if e["t"] in ("icp", "dip"):
            return list(e["b"])
        return list(self.snap[x - 1]["b"]) if e["t"] != "ixn" else \
            list(self.snap[self.frm[x] - 1]["b"])

    def siger(self, x, k, i, o):
        key = (x, k, i, o)
        if key in self.sigcache:
            return self.sigcache[key]
        raw = self.ser[x].raw
        kk = k
        if k == 0:      # a signature of something else
            kk = 1
            raw = b"garbage" + raw
        if o == -1:
            g = signer(kk).sign(raw, index=i, only=True)
        else:
            g = signer(kk).sign(raw, index=i, only=False, ondex=o)
        rec = {"k": k, "i": i, "o": -1 if g.ondex is None else g.ondex}
        self.sigcache[key] = (g, rec)
        return g, rec

    def wiger(self, x, w, i):
        raw = self.ser[x].raw if w else b"garbage" + self.ser[x].raw
        g = signer(w or self.wpool[0], False).sign(raw, index=i)
        return g, {"w": 1000 + w if w else 0, "i": i}

    def couple(self, x, w):
        raw = self.ser[x].raw if w else b"garbage" + self.ser[x].raw
        g = signer(w or self.wpool[0], False).sign(raw)
        return g, (1000 + w if w else 0)


class Retry(Exception):
    pass


def make_world(rng, **over):
    while True:
        try:
            return World(rng, **over)
        except Retry:
            continue


# ---------------------------------------------------------------- schedules
def noisy(world, rng, sigs, n):
    """Add n worthless or repeated signatures."""
    out = list(sigs)
    ids = [s[0] for s in sigs] or [1]
    for _ in range(n):
        k, i, o = rng.choice(sigs) if sigs else (1, 0, 0)
        c = rng.randrange(6)
        if c == 0:
            out.append((0, i, o))                        # signature of something else
        elif c == 1:
            out.append((k, i, -1))                       # same key and index, other code
        elif c == 2:
            out.append((k, i, rng.randint(0, 4)))        # same key and index, other ondex
        elif c == 3:
            out.append((k, rng.randint(0, 5), o))        # index of another key or none
        elif c == 4:
            out.append((rng.randint(1, world.nk), i, o)) # another key altogether
        else:
            out.append((k, i, i))
    rng.shuffle(out)
    return out


def delivery(world, rng, x, sigs=None, wits=None, how=None):
    o = world.o
    e = world.ev[x - 1]
    full = world.honest_sigs(x)
    if sigs is None:
        sigs = full
    if rng.random() < o["noise"]:
        sigs = noisy(world, rng, sigs, rng.randint(1, 3))
    if not sigs:
        sigs = [(0, 0, 0)]
    ws = world.wits_of(x) if wits is None else wits
    wl = world.wits_of(x)
    wg = []
    for w in ws:
        wg.append((w, wl.index(w) if w in wl else rng.randint(0, 3)))
    cp = []
    if wg and rng.random() < .15:
        for w, i in list(wg):
            if rng.random() < .5:
                wg.remove((w, i))
                cp.append(w)
    if wl and rng.random() < o["noise"]:
        c = rng.randrange(5)
        w, i = rng.choice(wl), rng.randint(0, 3)
        if c == 0:
            wg.append((0, i))
        elif c == 1:
            wg.append((w, i))
        elif c == 2:
            wg.append((rng.choice(world.wpool), rng.randint(0, 3)))
        elif c == 3 and wg:
            wg.append(wg[0])
        else:
            cp.append(rng.choice(world.wpool + [0]))
    sl = 0
    if e["t"] in ("dip", "drt"):
        good = [y + 1 for y, f in enumerate(world.ev) if any(s["x"] == x for s in f["a"])]
        c = rng.random()
        if good and c < .5:
            sl = rng.choice(good)
        elif c > .85:
            sl = rng.choice([-1] + list(range(1, len(world.ev) + 1)))
    own = e["p"] in world.own or any(1000 + w in world.own for w in wl) or e["di"] in world.own
    loc = rng.random() < (o.get("ownlocal", .7) if own else o["local"])
    tr = trgroups(world, rng, x) if rng.random() < o["trc"] * .3 else []
    return dict(e="ev", x=x, sg=sigs, wg=wg, cp=cp, sl=sl, loc=loc, tr=tr, **wire(o, rng))


def trgroups(world, rng, x):
    """Receipts of x by transferable identifiers: groups of signatures, each with the
    establishment event whose keys they are by."""
    out = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        q = rng.randint(1, world.np)
        z = rng.choice([y for y, e in enumerate(world.ev, 1) if e["p"] == q])
        if rng.random() < .9:
            z = rng.choice([y for y, e in enumerate(world.ev, 1) if e["p"] == q and e["t"] != "ixn"])
        e = world.ev[z - 1]
        s = e["s"]
        if rng.random() < .05:
            s += 1
        keys = list(enumerate(e["k"])) or [(0, 1)]
        sg = [(k, i) for i, k in (keys if rng.random() < .6 else rng.sample(keys, rng.randint(1, len(keys))))]
        if rng.random() < world.o["noise"] * .3:
            sg.insert(rng.randint(0, len(sg)), (rng.choice((0, rng.randint(1, world.nk))), rng.randint(0, 4)))
        out.append(dict(p=q, s=s, z=0 if rng.random() < .04 else z, g=sg))
    return out


def wire(o, rng):
    """How a message is put on the wire: whether framed, and with attachment codes of which version."""
    return dict(framed=rng.random() < .7, gv=2 if rng.random() < o["gv2"] else 1)


def schedule(world, rng):
    """A list of abstract deliveries."""
    o = world.o
    n = len(world.ev)
    steps = []
    order = list(range(1, n + 1))
    if rng.random() < o["shuffle"]:
        # disorder of varying reach
        d = rng.choice([1, 2, 4, n])
        order.sort(key=lambda x: x + rng.uniform(-d, d))
    items = []
    for pos, x in enumerate(order):
        if rng.random() < o["drop"]:
            continue
        full = world.honest_sigs(x)
        wl = world.wits_of(x)
        if rng.random() < o["partial"] and (len(full) > 1 or wl):
            # in two or three parts, the parts apart
            parts = rng.randint(2, 3)
            cut = [[] for _ in range(parts)]
            wcut = [[] for _ in range(parts)]
            for g in full:
                cut[rng.randrange(parts)].append(g)
            for w in wl:
                wcut[rng.randrange(parts)].append(w)
            for j in range(parts):
                if j and not cut[j] and wcut[j] and rng.random() < .6:
                    items.append((pos + rng.uniform(0, 3), ("rct", x, wcut[j])))
                else:
                    items.append((pos + (0 if not j else rng.uniform(0, 3)),
                                  ("ev", x, cut[j] or full[:1], wcut[j])))
        elif wl and rng.random() < o["rct"]:
            items.append((pos, ("ev", x, full, [])))
            if rng.random() < .3:
                items.append((pos + rng.uniform(-1, 3), ("rct", x, rng.sample(wl, len(wl)))))
            else:
                for w in wl:
                    if rng.random() < .85:
                        items.append((pos + rng.uniform(-1, 3), ("rct", x, [w])))
        else:
            wits = wl if rng.random() < .8 else rng.sample(wl, rng.randint(0, len(wl)))
            sg = full if rng.random() < .85 else rng.sample(full, rng.randint(0, len(full)))
            items.append((pos, ("ev", x, sg, wits)))
        if rng.random() < o["dup"]:
            items.append((pos + rng.uniform(0, 5), ("ev", x, full, wl)))
        while rng.random() < o["trc"]:
            items.append((pos + rng.uniform(-2, 6), ("rct", x, [])))
    items.sort(key=lambda t: t[0])
    for _, it in items:
        if it[0] == "ev":
            steps.append(delivery(world, rng, it[1], it[2], it[3]))
        else:
            x, ws = it[1], it[2]
            wl = world.wits_of(x)
            wg, cp = [], []
            for w in ws:
                if rng.random() < .5:
                    cp.append(w)
                else:
                    wg.append((w, wl.index(w) if w in wl else 0))
            if rng.random() < o["noise"] * .5:
                cp.append(rng.choice(world.wpool + [0]))
            if rng.random() < o["noise"] * .5:
                wg.insert(rng.randint(0, len(wg)), (rng.choice(world.wpool + [0]), rng.randint(0, 5)))
            tr = trgroups(world, rng, x) if not (wg or cp) or rng.random() < .1 else []
            steps.append(dict(e="rct", x=x, wg=wg, cp=cp, loc=rng.random() < o["local"], tr=tr,
                              rs=rng.random() < .3, **wire(o, rng)))
        if rng.random() < o["esc"]:
            steps.append(dict(e="esc"))
    steps.append(dict(e="esc"))
    return steps


# ---------------------------------------------------------------- the real validator
class Validator:
    """A real Baser, Kevery and Parser fed with a world's messages."""

    _n = 0

    def __init__(self, world, home=None, **kwa):
        self.w = world
        Validator._n += 1
        self.name = f"val{os.getpid()}x{Validator._n}"
        self.home = home        # a directory: the database survives restarts
        self.kwa = kwa
        self.opened()
        self.seen = {p: None for p in range(1, world.np + 1)}
        self.order = []         # events in the order first seen

    def opened(self):
        """Start the process: open the database and all that works on it."""
        if self.home:
            self.db = basing.Baser(name=self.name, temp=False, headDirPath=self.home, reopen=True)
            if self.db.version is None:
                self.db.version = keri.__version__
            self.db.reload()
        else:
            self.db = basing.Baser(name=self.name, temp=True, reopen=True)
        for p in self.w.own:
            pre = self.w.pres.get(p) if p < 1000 else self.w.wit(p - 1000)
            if pre:
                self.db.prefixes.add(pre)
        self.kvy = eventing.Kevery(db=self.db, lax=False, local=False, **self.kwa)
        self.psr = parsing.Parser(framed=True, kvy=self.kvy)
        self.log = lmdb.watch(self.db.env, "fels.")

    def restart(self):
        """End the process, at once, and start another."""
        lmdb.FAULT.disarm()
        lmdb.unwatch(self.db.env)
        self.db.env.close()
        self.opened()

    def close(self):
        lmdb.FAULT.disarm()
        lmdb.unwatch(self.db.env)
        self.db.close(clear=True)

    # -- encoding
    def message(self, st):
        w = self.w
        x = st["x"]
        recs = {"sg": [], "wg": [], "cp": []}
        wigs, couples = [], []
        for wi, i in st["wg"]:
            g, r = w.wiger(x, wi, i)
            wigs.append(g)
            recs["wg"].append(r)
        for wi in st["cp"]:
            g, r = w.couple(x, wi)
            couples.append(g)
            recs["cp"].append(r)
        trs, recs["tr"] = [], []
        for t in st.get("tr") or ():
            gs = []
            rec = {"p": t["p"], "s": t["s"], "z": t["z"], "g": []}
            for k, i in t["g"]:
                g, r = w.siger(x, k, i, i)
                gs.append(g)
                rec["g"].append({"k": r["k"], "i": r["i"]})
            dig = w.ser[t["z"]].said if t["z"] else coring.Diger(ser=b"junk").qb64
            trs.append((coring.Prefixer(qb64=w.pres[t["p"]]), coring.Number(num=t["s"]), coring.Diger(qb64=dig), gs))
            recs["tr"].append(rec)
        gv = Vrsn_2_0 if st.get("gv") == 2 else Vrsn_1_0
        if st["e"] == "rct":
            s = w.ser[x]
            serder = eventing.receipt(pre=s.pre, sn=s.sn, said=s.said, pvrsn=s.pvrsn,
                                     **({} if s.pvrsn.major > 1 else {"kind": Kinds.json}))
            gv = max(gv, serder.gvrsn or serder.pvrsn)
            self.version = gv
            return eventing.messagize(serder, wigers=wigs or None, cigars=couples or None, gvrsn=gv,
                                      **({"rsgs" if st.get("rs") else "tsgs": trs} if trs else {}),
                                      framed=st.get("framed", True), genusify=x % 2 == 0), recs
        sigers = []
        for k, i, o in st["sg"]:
            g, r = w.siger(x, k, i, o)
            sigers.append(g)
            recs["sg"].append(r)
        bonds = None
        if st["sl"]:
            if st["sl"] == -1:
                sn, d = 0, coring.Diger(ser=b"junk").qb64
            else:
                y = w.ser[st["sl"]]
                sn, d = y.sn, y.said
            bonds = [SealSource(s=coring.Number(num=sn, code=coring.NumDex.Huge), d=coring.Diger(qb64=d))]
        gv = max(gv, w.ser[x].gvrsn or w.ser[x].pvrsn)
        self.version = gv
        msg = eventing.messagize(w.ser[x], sigers=sigers, wigers=wigs or None, cigars=couples or None,
                                 rsgs=trs or None, bonds=bonds, gvrsn=gv, framed=st.get("framed", True), genusify=x % 2 == 0)
        return msg, recs

    # -- decoding
    def sid(self, said):
        return self.w.bysaid.get(said, -1)

    def kid(self, qb64):
        return self.w.keyids.get(qb64, -1)

    def wid(self, qb64):
        k = self.w.keyids.get(qb64)
        return 1000 + k if k else -1

    def kstate(self, p):
        if self.w.pres[p] not in self.kvy.kevers:
            return Dead
        kv = self.kvy.kevers[self.w.pres[p]]
        return {"live": True, "s": kv.sner.num, "d": self.sid(kv.serder.said), "t": kv.ilk,
                "k": [self.kid(v.qb64) for v in kv.verfers], "kt": thabs(kv.tholder),
                "n": [self.w.digs.get(d.qb64, 0) for d in kv.ndigers], "nt": thabs(kv.ntholder),
                "wits": [self.wid(b) for b in kv.wits], "toad": kv.toader.num,
                "br": [self.wid(b) for b in kv.cuts], "ba": [self.wid(b) for b in kv.adds],
                "lest": {"s": kv.lastEst.s, "d": self.sid(kv.lastEst.d)},
                "di": self.w.preid.get(kv.delpre, -1) if kv.delpre else 0,
                "eo": bool(kv.estOnly), "dnd": bool(kv.doNotDelegate)}

    def srecord(self, p):
        r = self.db.states.get(keys=self.w.pres[p])
        if r is None:
            return Dead
        return {"live": True, "s": int(r.s, 16), "d": self.sid(r.d), "t": r.et,
                "k": [self.kid(v) for v in r.k], "kt": thold(r.kt),
                "n": [self.w.digs.get(d, 0) for d in r.n], "nt": thold(r.nt),
                "wits": [self.wid(b) for b in r.b], "toad": int(r.bt, 16),
                "br": [self.wid(b) for b in r.ee.br or []], "ba": [self.wid(b) for b in r.ee.ba or []],
                "lest": {"s": int(r.ee.s, 16), "d": self.sid(r.ee.d)},
                "di": self.w.preid.get(r.di, -1) if r.di else 0,
                "eo": "EO" in r.c, "dnd": "DND" in r.c, "fn": int(r.f, 16),
                "pr": self.sid(r.p) if r.p else 0}

    def kel(self, p):
        out = []
        for keys, on, val in self.db.kels.getAllItemIter(keys=self.w.pres[p]):
            while len(out) <= on:
                out.append([])
            out[on].append(self.sid(val))
        return out

    def fel(self, p):
        out = []
        for keys, on, val in self.db.fels.getAllItemIter(keys=self.w.pres[p]):
            while len(out) <= on:
                out.append(-2)
            out[on] = self.sid(val)
        return out

    def ldes(self):
        return sorted({self.sid(v) for _, _, v in self.db.ldes.getAllItemIter()} - {-1})

    def observe(self, line):
        acc = []
        for _, key, val in self.log:
            acc.append(self.sid(bytes(val).decode()))
        self.log.clear()
        line["acc"] = acc
        self.order += acc
        ch = []
        for p in self.seen:
            now = {"p": p, "ks": self.kstate(p), "sr": self.srecord(p), "kel": self.kel(p), "fel": self.fel(p)}
            if now != self.seen[p] and (self.seen[p] is not None or now["ks"] != Dead or now["kel"] or now["fel"]):
                ch.append(now)
            self.seen[p] = now
        line["ch"] = ch
        line["lde"] = self.ldes()
        return line

    # -- acting
    def step(self, st, out):
        with guard(90):
            self._step(st, out)

    def _step(self, st, out):
        if st["e"] == "esc":
            quiet = passes = 0
            while quiet < 3:
                passes += 1
                if passes > 100:
                    raise RuntimeError("escrow processing accepts events without end")
                self.kvy.processEscrows()
                line = self.observe({"e": "esc", "fix": False})
                quiet = 0 if line["acc"] else quiet + 1
                if quiet == 3:
                    line["fix"] = True
                if line["acc"] or line["ch"] or line["fix"]:
                    out.append(line)
            return
        if st["e"] == "clone":
            out.append(self.cloned(Vrsn_2_0 if st.get("gv") == 2 else Vrsn_1_0))
            return
        if st["e"] == "restart":
            self.restart()
            out.append(self.observe({"e": "restart"}))
            return
        if st["e"] == "crash":
            lmdb.FAULT.arm(st["k"])
            part = []
            try:
                self.step(st["st"], part)
            except lmdb.Crash:
                acc = [self.sid(bytes(v).decode()) for _, _, v in self.log]
                self.restart()
                line = self.observe({"e": "crash", "x": st["st"].get("x", 0)})
                line["acc"] = sum((l["acc"] for l in part), []) + acc
                if st["st"]["e"] != "esc":
                    msg, recs = self.message(st["st"])
                    line.update(recs, loc=st["st"]["loc"], rct=st["st"]["e"] == "rct")
                else:
                    line.update(sg=[], wg=[], cp=[], tr=[], loc=False, rct=True)
                # lines of a pass cut short are one with it
                for l in part:
                    for ch in l["ch"]:
                        if ch["p"] not in {c["p"] for c in line["ch"]}:
                            line["ch"].append({"p": ch["p"], **{k: v for k, v in self.seen[ch["p"]].items() if k != "p"}})
                out.append(line)
                return
            finally:
                lmdb.FAULT.disarm()
            out.extend(part)
            return
        msg, recs = self.message(st)
        self.psr.parse(ims=bytearray(msg), framed=st.get("framed", True), local=st["loc"],
                       version=self.version)
        line = {"e": st["e"], "x": st["x"], "sl": st.get("sl", 0), "loc": st["loc"], **recs}
        out.append(self.observe(line))

    def cloned(self, gvrsn):
        """Replay the log as first seen to another validator."""
        b = Validator(self.w, cloned=True)
        b.db.prefixes.clear()
        try:
            msgs = {}
            for p in self.seen:
                if self.w.pres.get(p):
                    for fn, x in enumerate(self.fel(p)):
                        for msg in self.db.clonePreIter(pre=self.w.pres[p], fn=fn, gvrsn=gvrsn):
                            msgs[x] = bytes(msg)
                            break
            for x in self.order:
                s = self.w.ser[x]
                head = counting.Counter.makeGVC(version=max(gvrsn, s.gvrsn or s.pvrsn))
                b.psr.parse(ims=bytearray(head) + msgs[x], framed=True, local=False)
            for _ in range(3):
                b.kvy.processEscrows()
            return self.clones(b, "clone")
        finally:
            b.close()

    def clones(self, b, how):
        """What b, made from this log, holds, beside what this one does."""
        line = b.observe({"e": how})
        line["ch"] = [b.seen[p] for p in b.seen]
        mine, its = [], []
        self.attached(mine)
        b.attached(its)
        for l in mine + its:
            l.pop("e")
            l.pop("src")
        line["mine"], line["its"] = mine, its
        return line

    def when(self, x):
        """When event x was first seen."""
        s = self.w.ser[x]
        d = self.db.dtss.get(keys=(s.pre, s.said))
        return d.dts if d else ""

    def attached(self, out):
        """What is stored with each accepted event."""
        for p in self.seen:
            for x in self.fel(p):
                if x < 1:
                    continue
                s = self.w.ser[x]
                raw = s.raw
                sg = []
                for g in self.db.sigs.get(keys=(s.pre, s.said)) or []:
                    sg.append({"k": self.whose(g.raw, raw), "i": g.index,
                               "o": -1 if g.ondex is None else g.ondex})
                wg = []
                for g in self.db.wigs.get(keys=(s.pre, s.said)) or []:
                    k = self.whose(g.raw, raw, wit=True)
                    wg.append({"w": 1000 + k if k else 0, "i": g.index})
                rc = []
                for verfer, cigar in self.db.rcts.get(keys=(s.pre, s.said)) or []:
                    good = coring.Verfer(qb64=verfer.qb64).verify(cigar.raw, raw)
                    rc.append(self.wid(verfer.qb64) if good else 0)
                vr = []
                for (_, _, rpre, rsn, rdig), g in self.db.vrcs.getTopItemIter(keys=(s.pre, s.said, "")):
                    vr.append({"p": self.w.preid.get(rpre, -1), "s": int(rsn, 16), "z": self.sid(rdig),
                               "k": self.whose(g.raw, raw), "i": g.index})
                vr.sort(key=lambda v: sorted(v.items()))
                esr = self.db.esrs.get(keys=(s.pre, s.said))
                out.append({"e": "att", "x": x, "sg": sg, "wg": wg, "rc": rc, "vr": vr, "dt": self.when(x),
                            "src": bool(esr and esr.local)})

    def whose(self, sig, raw, wit=False):
        if not hasattr(self, "_who"):
            self._who = {}
        key = (sig, raw)
        if key not in self._who:
            ids = self.w.wpool if wit else range(1, self.w.nk + 1)
            self._who[key] = next((k for k in ids if signer(k, not wit).verfer.verify(sig, raw)), 0)
        return self._who[key]


def commits(world, steps, **kwa):
    """How many commits each step makes."""
    v = Validator(world, **kwa)
    n = []
    try:
        for st in steps:
            a = lmdb.FAULT.commits
            v.step(st, [])
            n.append(lmdb.FAULT.commits - a)
    finally:
        v.close()
    return n


def record(world, steps, out, att=True, **kwa):
    """Play steps to a fresh validator, appending trace lines to out."""
    out.append(world.table())
    v = Validator(world, **kwa)
    try:
        for st in steps:
            v.step(st, out)
        if att:
            v.attached(out)
    finally:
        v.close()


# ---------------------------------------------------------------- restarts and crashes
def with_restarts(steps, rng, p=.25):
    out = []
    for st in steps:
        out.append(st)
        if rng.random() < p:
            out.append(dict(e="restart"))
    return out


def with_crash(world, steps, counts, rng):
    """The schedule with a crash at some commit of some step, then everything delivered again."""
    able = [j for j, n in enumerate(counts) if n]
    j = rng.choice(able)
    k = rng.randrange(counts[j])
    return steps[:j] + [dict(e="crash", st=steps[j], k=k)] + steps[:] + [dict(e="esc")]
