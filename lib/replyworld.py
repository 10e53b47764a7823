"""Worlds of signed replies for spec/Reply.tla: endpoint roles, locations, watched
identifiers and key state notices, their signatures, and a driver that delivers them to the
real Parser, Revery and Kevery and records what became of them."""
import datetime
import os

import keri_env  # noqa: F401
import keri
import kelworld as K
from keri.core import coring, eventing, parsing, routing, serdering
from keri.db import basing
from keri.kering import Kinds, Vrsn_1_0, Vrsn_2_0
from keri import kering
from keri.recording import HabitatRecord
from keri.core.structing import SealSource
from vcommon import guard

NOW = datetime.datetime.now(datetime.timezone.utc).replace(microsecond=0)
OLD, FRESH = range(1, 4), range(4, 8)         # dates: ten days ago, minutes ago, tomorrow (7)
ZONES = [datetime.timezone.utc] * 4 + [datetime.timezone(datetime.timedelta(hours=h, minutes=m))
                                        for h, m in ((5, 30), (-8, 0), (13, 0), (-3, -30))]
ROLES = ["controller", "witness", "agent", "mailbox"]
PROFILE = dict(keys=(1, 3), replies=(2, 5), steps=(10, 24), kinds=dict(end=3, loc=3, wat=2, ksn=0),
               bad=.08, partial=.35, multi=.3, garbage=.25, wrong=.12, stranger=.1, lax=.5, own=.2,
               late=.4, bare=.4, old=.35, esc=.3, restart=0, tie=.3, rotate=.5, twin=.4, junk=.03, watchers=.4)
KEL = dict(aids=(1, 3), events=(3, 9), wits=0, deleg=0, own=0, bad=0, v2=.2, twin=0, graft=0, fork=.15,
           eo=0, dnd=0, nontrans=.2, nonext=0, big=.02, long=0, trc=0, ixn=.25, seal=0, weighted=.3)


def stamp(rng, d):
    t = NOW - datetime.timedelta(days=10 - d) if d in OLD else NOW - datetime.timedelta(seconds=1500 - 100 * d)
    if d == 7:
        t = NOW + datetime.timedelta(days=1)
    return t.astimezone(rng.choice(ZONES)).isoformat(timespec="microseconds")


class World:
    def __init__(self, rng, **over):
        self.rng = rng
        self.o = o = dict(PROFILE, **{k: v for k, v in over.items() if k != "kel"})
        while True:
            try:
                self.k = K.World(rng, **dict(KEL, **over.get("kel", {})))
                break
            except K.Retry:
                pass
        self.k.own = set()
        self.np = self.k.np
        self.pres = dict(self.k.pres)
        self.barekey = {}
        for _ in range(rng.randint(1, 2) if rng.random() < o["bare"] else 0):
            self.np += 1
            k = self.k.newkey()
            self.barekey[self.np] = k
            self.pres[self.np] = K.signer(k, False).verfer.qb64
        self.nontrans = {p: k for p, k in self.barekey.items()}
        for p in range(1, self.k.np + 1):
            e = self.k.ev[self.k.incepts[p]]
            if not e["xf"]:
                self.nontrans[p] = e["k"][0]
        self.own = {p for p in self.pres if rng.random() < o["own"]}
        self.watch = {p for p in self.pres if rng.random() < o["watchers"]}
        self.est = {p: [x for x, e in enumerate(self.k.ev, 1) if e["p"] == p and e["t"] != "ixn"]
                    for p in self.pres}
        self.keys = []
        self.rp = []
        self.ser = {}
        self.kinds = [k for k, n in o["kinds"].items() for _ in range(n)]
        for _ in range(rng.randint(*o["keys"])):
            self.addkey()
        self.bysaid = {s.said: r for r, s in self.ser.items()}

    def addkey(self):
        rng, o = self.rng, self.o
        kd = rng.choice(self.kinds)
        near = [k for k in self.keys if k["kd"] == kd]
        p = rng.choice(near)["p"] if near and rng.random() < .6 else rng.randint(1, self.np)
        pre = self.pres[p]
        other = lambda: self.pres[rng.randint(1, self.np)]
        q = 0
        if kd == "end":
            role = rng.choice(ROLES)
            eid = other()
            key = (pre, role, eid)
        elif kd == "loc":
            key = (pre, rng.choice(["http", "https", "tcp"]))
        elif kd == "wat":
            key = (pre, other(), other())
        else:
            q = rng.randint(1, self.k.np)
            key = (self.pres[q], pre)
        if any(k["kd"] == kd and k["key"] == key for k in self.keys):
            return
        self.keys.append(dict(kd=kd, p=p, key=key, q=q))
        ki = len(self.keys)
        dates = []
        for _ in range(rng.randint(*o["replies"])):
            d = rng.choice(dates) if dates and rng.random() < o["tie"] else \
                rng.choice(list(OLD)) if rng.random() < o["old"] else rng.choice(list(FRESH))
            dates.append(d)
            self.addreply(ki, d)

    def addreply(self, ki, d):
        rng, o = self.rng, self.o
        key = self.keys[ki - 1]
        kd, kk = key["kd"], key["key"]
        e = dict(k=ki, p=key["p"], d=d, v=0, ok=True, q=0, s=0, x=0, tr=False)
        bad = rng.random() < o["bad"]
        if kd == "end":
            e["v"] = rng.randint(0, 1)
            route = "/end/role/" + ("add" if e["v"] else "cut")
            data = dict(cid=kk[0], role=kk[1], eid=kk[2])
            if bad:
                w = rng.choice(["role", "eid", "cid", "route"])
                if w == "role":
                    data["role"] = "overlord"
                elif w == "route":
                    route = "/end/role/set"
                elif rng.random() < .5:
                    del data[w]
                else:
                    data[w] = "Bnothing"
        elif kd == "loc":
            e["v"] = rng.randint(0, 4)
            url = "" if e["v"] == 0 else f"{kk[1]}://h{e['v']}.example:5/"
            route = "/loc/scheme"
            data = dict(eid=kk[0], scheme=kk[1], url=url)
            if bad:
                w = rng.choice(["scheme", "url", "eid", "mis"])
                if w == "scheme":
                    data["scheme"] = "gopher"
                elif w == "mis":
                    data["url"] = "ftp://elsewhere/"
                else:
                    del data[w]
        elif kd == "wat":
            e["v"] = rng.randint(0, 1)
            route = f"/watcher/{kk[1]}/" + ("add" if e["v"] else "cut")
            data = dict(cid=kk[0], oid=kk[2])
            if bad:
                route = f"/watcher/{kk[1]}/twist"
        else:
            mine = [x for x, f in enumerate(self.k.ev, 1) if f["p"] == key["q"]]
            x = rng.choice(mine)
            f = self.k.ev[x - 1]
            s = self.k.ser[x]
            e.update(q=key["q"], s=f["s"], x=x)
            dig = s.said
            if rng.random() < .12:
                e["x"] = rng.choice([0] + mine)
                dig = self.k.ser[e["x"]].said if e["x"] else coring.Diger(ser=b"not" + kk[0].encode()).qb64
            if rng.random() < .08:
                e["s"] = max(0, e["s"] + rng.choice([-1, 1]))
            b = []
            if rng.random() < .35:
                b = [kk[1]] if kk[1][0] == "B" else []
            if rng.random() < .3:
                b = b + [K.signer(self.k.newkey(), False).verfer.qb64]
            e["tr"] = kk[0] == kk[1] or kk[1] in b or key["p"] in self.watch
            le = dict(s="0", d=self.k.ser[self.k.incepts[key["q"]] + 1].said, br=[], ba=[])
            data = dict(vn=[1, 0], i=kk[0], s="%x" % e["s"], p="", d=dig, f="%x" % e["s"], dt=stamp(rng, d), et=f["t"],
                        kt="1", k=[K.signer(1).verfer.qb64], nt="1", n=[K.nextdig(1)], bt="0", b=b, c=[], ee=le, di="")
            route = "/ksn/" + kk[1]
            if bad:
                data.update(nonsense=1)
        if bad:
            e["ok"] = False
        if kd in ("wat",) and rng.random() < .3:
            data["oobi"] = f"http://w{ki}.example/oobi/{d}"
        kind = rng.choice([Kinds.json, Kinds.json, Kinds.cbor, Kinds.mgpk])
        st = stamp(rng, d)
        s = eventing.reply(route=route, data=data, stamp=st, version=Vrsn_1_0, kind=kind)
        if s.said in {t.said for t in self.ser.values()}:
            return
        self.rp.append(e)
        self.ser[len(self.rp)] = s
        e["old"] = d in OLD

    def table(self):
        evs = [{"p": e["p"], "s": e["s"], "est": e["t"] != "ixn", "n": len(e["k"]),
                "kt": K.thold(e["kt"]) if e["t"] != "ixn" else {"kind": "num", "n": 0}} for e in self.k.ev]
        rp = [{k: e[k] for k in ("k", "p", "d", "v", "ok", "q", "s", "x", "tr", "old")} for e in self.rp]
        return {"e": "world", "np": self.np, "own": sorted(self.own), "ev": evs, "rp": rp,
                "ks": [{"kd": k["kd"], "p": k["p"], "q": k["q"]} for k in self.keys],
                "nt": sorted(self.nontrans)}

    # ---- signatures
    def sign(self, r, x, i, ok):
        """Indexed signature on reply r by key i of event x."""
        raw = self.ser[r].raw
        ks = self.k.ev[x - 1]["k"] if x else [1]
        xf = self.k.ev[x - 1]["xf"] if x else True
        if i >= len(ks):
            return K.signer(ks[0], xf).sign(raw, index=i), False
        if not ok:
            if self.rng.random() < .5:
                return K.signer(ks[i], xf).sign(b"other" + raw, index=i), False
            return K.signer(self.k.newkey(), xf).sign(raw, index=i), False
        g = K.signer(ks[i], xf)
        # a signature counts by its index whatever the other index in its code
        c = self.rng.random()
        if c < .1:
            return g.sign(raw, index=i, only=True), True
        if c < .2:
            return g.sign(raw, index=i, only=False, ondex=self.rng.randint(0, 3)), True
        return g.sign(raw, index=i), True


# ---------------------------------------------------------------- deliveries
def group(w, r, x, rng, full=None):
    """An abstract signature group of event x for reply r."""
    o = w.o
    e = w.k.ev[x - 1]
    n = len(e["k"]) if e["t"] != "ixn" else 1
    idx = list(range(n))
    if full is None:
        full = rng.random() > o["partial"]
    if not full:
        idx = rng.sample(idx, rng.randint(1, n))
    sg = [dict(i=i, ok=True) for i in idx]
    for g in sg:
        if rng.random() < o["garbage"] * .25:
            g["ok"] = False
    if rng.random() < o["garbage"] * .5:
        sg.insert(rng.randint(0, len(sg)), dict(i=rng.randint(0, n + 1), ok=False))
    if rng.random() < .1 and sg:
        sg.append(dict(rng.choice(sg)))
    s, d = e["s"], x
    if rng.random() < o["wrong"]:
        c = rng.random()
        mine = [y for y in range(1, len(w.k.ev) + 1) if w.k.ev[y - 1]["p"] == e["p"]]
        if c < .35:
            s = s + rng.choice([-1, 1, 2, 7]) if s else s + rng.choice([1, 2, 7])
        elif c < .7:
            d = rng.choice(mine + [0])
        else:
            d = rng.choice(mine)
            s = w.k.ev[d - 1]["s"]
            sg = [dict(g, ok=False) for g in sg] if d != x else sg
    return dict(p=e["p"], s=s, x=d, by=x, sg=sg)


def delivery(w, r, rng, x=None, full=None):
    o = w.o
    p = w.rp[r - 1]["p"]
    cg, tg = [], []
    ests = w.est[p]
    if p in w.nontrans and (not ests or rng.random() < .7):
        cg.append(dict(p=p, k=w.nontrans[p], ok=rng.random() > o["garbage"] * .5))
        if rng.random() < o["multi"] * .5:
            cg.append(dict(p=p, k=w.nontrans[p], ok=rng.random() > .3))
    if rng.random() < o["stranger"] and w.nontrans:
        q = rng.choice(sorted(w.nontrans))
        cg.insert(rng.randint(0, len(cg)), dict(p=q, k=w.nontrans[q], ok=True))
    if ests and (not cg or rng.random() < .3):
        x = x or rng.choice(ests[:1] + ests)
        tg.append(group(w, r, x, rng, full))
        while rng.random() < o["multi"]:
            tg.append(group(w, r, rng.choice(ests), rng, full))
    if rng.random() < o["stranger"]:
        q = rng.choice([q for q in w.est if w.est[q]])
        tg.insert(rng.randint(0, len(tg)), group(w, r, rng.choice(w.est[q]), rng))
    if rng.random() < o["wrong"] * .3 and p <= w.k.np:
        ixn = [y for y in range(1, len(w.k.ev) + 1) if w.k.ev[y - 1]["p"] == p and w.k.ev[y - 1]["t"] == "ixn"]
        if ixn:
            x = rng.choice(ixn)
            k = w.k.ev[x - 1]
            tg.append(dict(p=p, s=k["s"], x=x, by=ests[0], sg=[dict(i=0, ok=False)]))
    tg = [g for g in tg if g["sg"]]
    if not cg and not tg:
        return None
    c = rng.random()
    lax, loc = (True, False) if c < o["lax"] else (False, rng.random() < .5)
    return dict(e="rpy", r=r, cg=cg, tg=tg, lax=lax, loc=loc, gv=2 if rng.random() < .2 else 1, framed=rng.random() < .8)


def schedule(w):
    rng, o = w.rng, w.o
    n = rng.randint(*o["steps"])
    items = []
    late = {p for p in w.pres if rng.random() < o["late"]}
    for p in range(1, w.k.np + 1):
        mine = [x for x in range(1, len(w.k.ev) + 1) if w.k.ev[x - 1]["p"] == p]
        hi = n * (1 if p in late else .5)
        ts = sorted(rng.uniform(-3, hi) for _ in mine)
        if rng.random() < .1:
            ts = ts[:rng.randint(1, len(ts))]
        if p not in late and rng.random() < .4:
            ts = [-1] * len(ts)
        items += [(t, 0, dict(e="kel", x=x)) for t, x in zip(ts, mine)]
    for t in range(n):
        if not w.rp:
            break
        r = rng.randint(1, len(w.rp))
        if rng.random() < o["twin"]:       # again and again about one reply
            x = rng.choice(w.est[w.rp[r - 1]["p"]] or [None])
            for _ in range(rng.randint(2, 3)):
                d = delivery(w, r, rng, x if rng.random() < .7 else None, False if rng.random() < .6 else None)
                if d:
                    items.append((t + rng.choice((0, 0, rng.uniform(0, 6))), 1, d))
            continue
        d = delivery(w, r, rng)
        if d:
            items.append((t, 1, d))
    for t in range(n):
        if rng.random() < o["esc"]:
            c = rng.random()
            items.append((t + .5, 2, dict(e="esc", lax=c < .7, loc=c > .85)))
        if rng.random() < o["restart"]:
            items.append((t + .6, 3, dict(e="restart")))
    items.sort(key=lambda i: i[:2])
    return [i[2] for i in items] + [dict(e="esc", lax=True, loc=False)]


class Validator:
    _n = 0

    def __init__(self, w, home=None):
        self.w = w
        Validator._n += 1
        self.name = f"rpl{os.getpid()}x{Validator._n}"
        self.home = home
        self.last = {}
        self.opened()

    def opened(self):
        w = self.w
        if self.home:
            self.db = basing.Baser(name=self.name, temp=False, headDirPath=self.home, reopen=True)
            if self.db.version is None:
                self.db.version = keri.__version__
            self.db.reload()
        else:
            self.db = basing.Baser(name=self.name, temp=True, reopen=True)
        for p in w.own:
            self.db.prefixes.add(w.pres[p])
        if w.watch and self.db.habs.get(keys=("watched",)) is None:
            self.db.habs.pin(keys=("watched",), val=HabitatRecord(hid="watched", name="watched",
                                                                  watchers=[w.pres[p] for p in sorted(w.watch)]))
        self.way = {}
        for lax, loc in ((True, False), (False, False), (False, True)):
            rvy = routing.Revery(db=self.db, rtr=routing.Router(), lax=lax, local=loc)
            kvy = eventing.Kevery(db=self.db, lax=lax, local=loc, rvy=rvy)
            kvy.registerReplyRoutes(rvy.rtr)
            self.way[lax, loc] = (kvy, rvy, parsing.Parser(framed=True, kvy=kvy, rvy=rvy))

    def restart(self):
        self.db.env.close()
        self.opened()

    def close(self):
        self.db.close(clear=True)

    def message(self, st):
        """The message of a delivery, and its signatures as they truly are."""
        w = self.w
        s = w.ser[st["r"]]
        rec = dict(cg=[], tg=[])
        cigars, tsgs = [], []
        for c in st["cg"]:
            g = K.signer(c["k"], False)
            cig = g.sign(s.raw if c["ok"] else s.raw + b"x")
            cigars.append(cig)
            rec["cg"].append({"p": c["p"], "ok": c["ok"]})
        for t in st["tg"]:
            gs, sg = [], []
            for g in t["sg"]:
                sig, ok = w.sign(st["r"], t["by"], g["i"], g["ok"])
                gs.append(sig)
                a, b = (w.k.ev[z - 1]["k"] if z else [] for z in (t["by"], t["x"]))
                i = g["i"]
                sg.append({"i": i, "ok": ok and i < min(len(a), len(b)) and a[i] == b[i]})
            dig = w.k.ser[t["x"]].said if t["x"] else coring.Diger(ser=b"junk").qb64
            tsgs.append((coring.Prefixer(qb64=w.pres[t["p"]]), coring.Number(num=t["s"], code=coring.NumDex.Huge),
                         coring.Diger(qb64=dig), gs))
            rec["tg"].append({"p": t["p"], "s": t["s"], "x": t["x"], "sg": sg})
        gv = Vrsn_2_0 if st["gv"] == 2 else Vrsn_1_0
        self.version = gv
        msg = eventing.messagize(s, cigars=cigars or None, tsgs=tsgs or None, gvrsn=gv, framed=st["framed"],
                                 genusify=gv == Vrsn_2_0)
        return msg, rec

    def step(self, st):
        with guard(60):
            return self._step(st)

    def _step(self, st):
        w = self.w
        if st["e"] == "kel":
            x = st["x"]
            sg = [w.k.siger(x, k, i, o)[0] for k, i, o in w.k.honest_sigs(x)]
            s = w.k.ser[x]
            gv = s.gvrsn or s.pvrsn
            bonds = None
            if w.k.ev[x - 1]["t"] in ("dip", "drt"):
                for y, f in enumerate(w.k.ev, 1):
                    if any(z["x"] == x for z in f["a"]):
                        bonds = [SealSource(s=coring.Number(num=f["s"], code=coring.NumDex.Huge),
                                            d=coring.Diger(qb64=w.k.ser[y].said))]
            msg = eventing.messagize(s, sigers=sg, bonds=bonds, gvrsn=gv, framed=True)
            kvy, rvy, psr = self.way[True, False]
            psr.parse(ims=bytearray(msg), local=True, version=gv)
            kvy.processEscrows()
            return self.observe(dict(e="kel", x=x))
        if st["e"] == "esc":
            self.way[st["lax"], st["loc"]][1].processEscrowReply()
            return self.observe(dict(e="esc", lax=st["lax"], loc=st["loc"]))
        if st["e"] == "restart":
            self.restart()
            return self.observe(dict(e="restart"))
        if "msg" in st:
            msg, rec, self.version = st["msg"], st["rec"], st["version"]
        else:
            msg, rec = self.message(st)
        self.way[st["lax"], st["loc"]][2].parse(ims=bytearray(msg), framed=st["framed"], local=st["loc"], version=self.version)
        return self.observe(dict(e="rpy", r=st["r"], lax=st["lax"], loc=st["loc"], **rec))

    # ---- what can be seen
    def klog(self, p):
        out = []
        st = self.db.states.get(keys=self.w.pres[p])
        for s in range(0, int(st.s, 16) + 1 if st else 0):
            d = self.db.kels.getLast(keys=self.w.pres[p], on=s)
            if d is None:
                break
            out.append(self.w.k.bysaid.get(d if isinstance(d, str) else bytes(d).decode(), -1))
        return out

    def evidence(self, r):
        """What is stored with reply r."""
        w = self.w
        s = w.ser[r]
        got = self.db.rpys.get(keys=(s.said,))
        date = self.db.sdts.get(keys=(s.said,))
        p = w.rp[r - 1]["p"]
        cg = any(v.qb64 == w.pres[p] and not v.transferable and v.verify(c.raw, s.raw)
                 for v, c in self.db.scgs.get(keys=(s.said,)))
        sg = []
        for keys, siger in self.db.tsgs.getTopItemIter(keys=(s.said, "")):
            keys = [k if isinstance(k, str) else bytes(k).decode() for k in keys]
            x = w.k.bysaid.get(keys[3], 0)
            ks = w.k.ev[x - 1]["k"] if x else []
            ok = keys[1] == w.pres[p] and siger.index < len(ks) and \
                K.signer(ks[siger.index], w.k.ev[x - 1]["xf"]).verfer.verify(siger.raw, s.raw)
            if ok:
                sg.append({"s": int(keys[2], 16), "x": x, "i": siger.index})
        return {"st": got is not None and bytes(got.raw) == bytes(s.raw),
                "dt": date is not None and coring.Dater(dts=s.ked["dt"]).datetime == date.datetime,
                "cg": cg, "sg": [g for i, g in enumerate(sg) if g not in sg[:i]]}

    def entry(self, ki):
        w, db = self.w, self.db
        k = w.keys[ki - 1]
        none = {"st": False, "dt": False, "cg": False, "sg": []}
        key = k["key"]
        if k["kd"] == "ksn":
            d = db.knas.get(keys=key)
            if d is None:
                return {"r": 0, "v": -1, **none}
            rec = db.ksns.get(keys=(d.qb64,))
            x = w.k.bysaid.get(d.qb64, 0)
            s = -1 if rec is None or rec.d != d.qb64 or rec.i != key[0] else int(rec.s, 16)
            return {"r": x + 1, "v": s, **none}
        if k["kd"] == "end":
            d, v = db.eans.get(keys=key), db.ends.get(keys=key)
            v = -1 if v is None else int(bool(v.allowed))
        elif k["kd"] == "loc":
            d, v = db.lans.get(keys=key), db.locs.get(keys=key)
            v = -1 if v is None else {"": 0, **{f"{key[1]}://h{n}.example:5/": n for n in range(1, 5)}}.get(v.url, -2)
        else:
            d, v = db.wwas.get(keys=key), db.obvs.get(keys=key)
            v = -1 if v is None else int(bool(v.enabled))
        if d is None:
            return {"r": 0, "v": v, **none}
        r = w.bysaid.get(d.qb64, -1)
        return {"r": r, "v": v, **(self.evidence(r) if r > 0 else none)}

    def strays(self):
        """Records of no reply of this world."""
        db = self.db
        have = {kd: {k["key"] for k in self.w.keys if k["kd"] == kd} for kd in ("end", "loc", "wat", "ksn")}
        n = 0
        for kd, subs in (("end", (db.ends, db.eans)), ("loc", (db.locs, db.lans)), ("wat", (db.obvs, db.wwas)), ("ksn", (db.knas,))):
            for sub in subs:
                n += sum(tuple(keys) not in have[kd] for keys, _ in sub.getTopItemIter())
        return n

    def observe(self, line):
        ch = []
        for ki in range(1, len(self.w.keys) + 1):
            e = self.entry(ki)
            if self.last.get(("k", ki)) != e:
                self.last["k", ki] = e
                ch.append({"k": ki, "v": e})
        kl = []
        for p in range(1, self.w.k.np + 1):
            g = self.klog(p)
            if self.last.get(("l", p), []) != g:
                self.last["l", p] = g
                kl.append({"k": p, "v": g})
        line.update(ch=ch, kl=kl, stray=self.strays(), oobis=[])
        return line


def record(w, steps, out, home=None):
    v = Validator(w, home=home)
    try:
        out.append(w.table())
        for st in steps:
            out.append(v.step(st))
    finally:
        v.close()
