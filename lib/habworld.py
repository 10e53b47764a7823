"""Worlds of haberies for spec/Hab.tla and a driver that does them with the real Habery, Hab, Manager
and stores, with another validator that is given their messages."""
import os
import random

import keri_env  # noqa: F401
import lmdb
from keri.app import configing, habbing, keeping
from keri.core import coring, eventing, parsing, routing
from keri.core.coring import Diger
from keri.core.signing import Salter, Signer
from keri.db import basing
from keri.kering import Vrsn_1_0
from keepworld import seedpair
from vcommon import guard

PROFILE = dict(steps=(6, 16), crash=0, bad=.15, enc=.3, ops=dict(make=4, rotate=8, interact=4, speak=2, reopen=1, delete=1))
NAMES = [("", "ann"), ("", "bob"), ("org", "ann"), ("", "eve"), ("", "x-y")]
SALTS = [Salter(raw=b"0123456789abcde%d" % i).qb64 for i in range(3)]
WITS = [Signer(raw=Diger(ser=b"witness %d" % i).raw, transferable=False) for i in range(6)]
KW = dict(version=Vrsn_1_0)


class World:
    def __init__(self, rng, **over):
        self.rng = rng
        self.o = dict(PROFILE, **over)
        self.en = seedpair(7) if rng.random() < self.o["enc"] else None
        self.nsec = rng.randint(0, 99)


class House:
    _n = 0

    def __init__(self, w, home=None):
        self.w, self.home = w, home
        House._n += 1
        self.name = f"hb{os.getpid()}x{House._n}"
        self.pubs, self.pids, self.slots, self.stems = {}, [], {}, {}
        self.wits = {s.verfer.qb64: n for n, s in enumerate(WITS, 1)}
        self.fed = {}
        self.hby = None
        self.opened()
        self.rdb = basing.Baser(name=self.name + "r", temp=True, reopen=True)
        rtr = routing.Router()
        self.rvy = routing.Revery(db=self.rdb, rtr=rtr, lax=True, local=False)
        self.kvy = eventing.Kevery(db=self.rdb, lax=True, local=False, rvy=self.rvy)
        self.kvy.registerReplyRoutes(router=rtr)
        self.psr = parsing.Parser(framed=True, kvy=self.kvy, rvy=self.rvy, version=Vrsn_1_0)

    def opened(self):
        kw = dict(temp=True) if self.home is None else dict(temp=False, headDirPath=self.home)
        if self.hby is None or self.home is not None:
            self.ks = keeping.Keeper(name=self.name, reopen=True, **kw)
            self.db = basing.Baser(name=self.name, reopen=True, **kw)
            self.cf = configing.Configer(name=self.name, temp=True, reopen=True)
        en = self.w.en
        self.hby = habbing.Habery(name=self.name, ks=self.ks, db=self.db, cf=self.cf, temp=True, version=Vrsn_1_0, salt=SALTS[0],
                                  **(dict(aeid=en[0], seed=en[1]) if en else {}))

    def reopen(self):
        if self.home is None:
            self.db.kevers.clear()
            self.db.prefixes.clear()
            self.db.groups.clear()
            self.db.reload()
        else:
            self.ks.env.close()
            self.db.env.close()
        self.opened()

    def close(self):
        for x in (self.ks, self.db, self.rdb):
            x.close(clear=True)
        self.cf.close(clear=True)

    # ---- naming
    def key(self, pub):
        pub = pub.decode() if isinstance(pub, (bytes, bytearray, memoryview)) else pub
        if pub not in self.pubs:
            self.pubs[pub] = len(self.pids) + 1
            self.pids.append(pub)
        return self.pubs[pub]

    def undigest(self, d):
        for k, p in enumerate(self.pids, 1):
            if Diger(ser=p.encode(), code=d.code).qb64 == d.qb64:
                return k
        return 0

    def hab(self, h):
        return self.hby.habs.get(self.slots.get(h))

    # ---- the house as it is
    def observe(self):
        hby, ks = self.hby, self.ks
        slot = {p: h for h, p in self.slots.items()}
        with ks.env.begin(db=ks.pris.sdb) as txn:
            held = [bytes(k).decode() for k, _ in txn.cursor()]
        signator = self.hby.signator.pre
        lots = {}
        for pre, hab in sorted(hby.habs.items(), key=lambda x: slot.get(x[0], 0)):
            ps, r, more = ks.sits.get(pre), None, []
            r = ps.nxt.ridx + 1 if ps.nxt.pubs else ps.new.ridx + 2
            while (got := ks.pubs.get(keeping.riKey(pre, r))) is not None:
                more.append([self.key(p) for p in got.pubs])
                r += 1
            lots[pre] = {"new": [self.key(p) for p in ps.new.pubs], "nxt": [self.key(p) for p in ps.nxt.pubs],
                         "old": [self.key(p) for p in ps.old.pubs], "more": more}
        held = sorted(self.key(p) for p in held if p != signator)
        ids = []
        for pre, y in lots.items():
            hab = hby.habs[pre]
            kv = hab.kever
            try:
                sgs = hab.sign(b"test")
                sg = len(sgs) == len(kv.verfers) and all(v.verify(g.raw, b"test") for v, g in zip(kv.verfers, sgs))
            except Exception:
                sg = False
            self.feed(pre)
            rk = self.kvy.kevers.get(pre) if pre in self.kvy.kevers else None
            num = lambda t: int(t.sith, 16) if isinstance(t.sith, str) else -1
            ids.append({"h": slot.get(pre, 0), "keys": [self.key(v.qb64) for v in kv.verfers], "nxt": [self.undigest(d) for d in kv.ndigers],
                        "n": kv.sner.num + 1, "kt": num(kv.tholder), "nt": num(kv.ntholder), "wits": [self.wits.get(x, 0) for x in kv.wits],
                        "toad": kv.toader.num, "tr": kv.prefixer.transferable, "eo": bool(kv.estOnly), "ks": y, "sg": bool(sg),
                        "rem": rk is not None and rk.serder.said == kv.serder.said})
        names = [{"nm": "/".join(k), "h": slot.get(v, 0)} for k, v in self.db.names.getTopItemIter()]
        for n in names:
            ns, nm = n["nm"].split("/")
            got = hby.habByName(nm, ns=ns or None)
            if got is None or slot.get(got.pre) != n["h"]:
                n["h"] = -1
        return {"names": names, "ids": ids, "held": held, "own": [slot.get(p, 0) for p in hby.prefixes if p != signator]}

    def feed(self, pre):
        """Give the other the identifier's events not yet given, as the house tells them, and the witnesses' receipts."""
        hab = self.hby.habs[pre]
        for sn in range(self.fed.get(pre, 0), hab.kever.sner.num + 1):
            msg = hab.msgOwnEvent(sn=sn, framed=True, gvrsn=Vrsn_1_0)
            serder, _, _ = hab.getOwnEvent(sn=sn)
            self.psr.parse(ims=bytearray(msg), local=False)
            self.receipts(serder)
            self.fed[pre] = sn + 1

    def receipts(self, serder):
        if serder.said in (self.kvy.kevers[serder.pre].serder.said if serder.pre in self.kvy.kevers else "",):
            return
        old = self.kvy.kevers[serder.pre] if serder.pre in self.kvy.kevers else None
        wits = list(serder.ked.get("b", [])) if "b" in serder.ked else list(old.wits) if old else []
        if "br" in serder.ked:
            wits = [x for x in wits if x not in serder.ked["br"]] + list(serder.ked["ba"])
        wigers = [WITS[self.wits[x] - 1].sign(serder.raw, index=j) for j, x in enumerate(wits) if x in self.wits]
        if wigers:
            sigers = self.rdb.sigs.get(keys=(serder.pre, serder.said))
            try:
                self.kvy.processEvent(serder=serder, sigers=sigers, wigers=wigers, local=False)
            except Exception:
                pass

    # ---- operations
    def perform(self, op, x):
        c = op["op"]
        none = lambda v: None if v == -1 else v
        sith = lambda t: None if t == 0 else f"{t:x}" if x.get("hexes", True) else t
        if c == "make":
            ns, nm = op["nm"].split("/")
            kw = dict(isith=sith(op["kt"]), nsith=sith(op["nt"]), icount=op["ic"], ncount=none(op["nc"]), toad=none(op["toad"]),
                      wits=[WITS[n - 1].verfer.qb64 for n in op["wits"]] or x["nil"], transferable=op["tr"], estOnly=op["eo"], **KW)
            if op["lots"]:
                kw.update(secrecies=[[s.qb64 for s in l] for l in x["secrets"]], iridx=op["ir"])
            else:
                kw.update(algo=x["algo"], salt=x["salt"])
            hab = self.hby.makeHab(name=nm, ns=ns or None, **kw)
            self.slots[op["h"]] = hab.pre
        elif c == "rotate":
            hab = self.hab(op["h"])
            if hab is None:
                raise KeyError("no such")
            n0 = hab.kever.sner.num
            msg = hab.rotate(isith=sith(op["kt"]), nsith=sith(op["nt"]), ncount=none(op["nc"]), toad=none(op["toad"]),
                             cuts=[WITS[n - 1].verfer.qb64 for n in op["cuts"]] or x["nil"], adds=[WITS[n - 1].verfer.qb64 for n in op["adds"]] or x["nil"],
                             framed=True, gvrsn=Vrsn_1_0, **KW)
            self.told(hab, n0, msg)
        elif c == "interact":
            hab = self.hab(op["h"])
            if hab is None:
                raise KeyError("no such")
            n0 = hab.kever.sner.num
            msg = hab.interact(data=x["data"], framed=True, gvrsn=Vrsn_1_0, **KW)
            self.told(hab, n0, msg)
        elif c == "delete":
            ns, nm = op["nm"].split("/")
            if not self.hby.deleteHab(nm, ns=ns or None):
                raise KeyError("no such")
        elif c == "speak":
            hab = self.hab(op["h"])
            if hab is None:
                raise KeyError("no such")
            url = f"http://u{x['n']}/"
            msg = hab.makeLocScheme(url=url, scheme="http", framed=True, gvrsn=Vrsn_1_0, **KW)
            self.psr.parse(ims=bytearray(msg), local=False)
            loc = self.rdb.locs.get(keys=(hab.pre, "http"))
            if loc is None or loc.url != url:
                raise AssertionError("not taken")
        elif c == "reopen":
            self.reopen()

    def told(self, hab, n0, msg):
        """The message the operation answered is the event."""
        if hab.kever.sner.num == n0 + 1:
            self.psr.parse(ims=bytearray(msg), local=False)
            serder, _, _ = hab.getOwnEvent(sn=n0 + 1)
            if self.rdb.evts.get(keys=(hab.pre, serder.said)) is None:
                raise AssertionError("another message")
            self.receipts(serder)
            self.fed[hab.pre] = n0 + 2

    def do(self, op, x):
        with guard(90):
            line = {"e": "op", "op": op, "ok": True, "fresh": len(self.pids)}
            before = set(self.hby.habs)
            try:
                self.perform(op, x)
            except lmdb.Crash:
                raise
            except Exception as ex:
                line["ok"] = False
                line["ex"] = f"{type(ex).__name__}: {ex}"[:160]
                if op["op"] == "reopen":
                    raise
            return self.line(line, op, before)

    def line(self, line, op, before):
        if op["op"] == "make" and op["h"] not in self.slots:
            new = [p for p in self.hby.habs if p not in before]
            if new:
                self.slots[op["h"]] = new[0]
        if op["op"] == "make" and op["lots"] and op["h"] in self.slots:
            got = self.ks.pubs.get(keeping.riKey(self.slots[op["h"]], len(op["lots"])))
            op["tail"] = [self.key(p) for p in got.pubs] if got else []
        line["o"] = self.observe()
        return line

    def crash(self, op, x, n):
        lmdb.FAULT.arm(n)
        before = set(self.hby.habs)
        try:
            return self.do(op, x)
        except lmdb.Crash:
            pass
        finally:
            lmdb.FAULT.disarm()
        line = {"e": "crash", "op": op, "ok": False, "fresh": len(self.pids)}
        self.reopen()
        return self.line(line, op, before)


def choose(w, s, c, o, nslot, used):
    rng, p = w.rng, w.o
    bad = lambda: rng.random() < p["bad"]
    live = [y["h"] for y in o["ids"]]
    able = [y["h"] for y in o["ids"] if y["nxt"]]
    some = lambda: rng.choice(able if able and rng.random() < .8 else live) if live and rng.random() > .04 else nslot + 1
    x = dict(nil=rng.choice((None, [])), n=rng.randint(0, 10**9), hexes=rng.random() < .7)
    if c == "make":
        ns, nm = rng.choice(NAMES)
        tr = rng.random() < .85
        algo, si = rng.choice((None, None, "salty", "randy")), rng.choice((None, None, 1, 2))
        if algo == "randy":
            si = None
        x.update(algo=algo, salt=SALTS[si] if si else None)
        wits = rng.sample(range(1, 5), rng.choice((0, 0, 1, 2, 3))) if tr else []
        ic = rng.randint(1, 3) if tr else 1
        nc = rng.choice((-1, -1, 0, 1, 2, 3)) if tr else -1
        op = dict(op=c, h=nslot + 1, nm=ns + "/" + nm, ic=ic, nc=nc, kt=0, nt=0, toad=-1, wits=wits, tr=tr, eo=tr and rng.random() < .15,
                  lots=[], ir=0, tail=[], how="r%d" % nslot if algo == "randy" else f"s{si or 0}{'t' if tr else 'n'}")
        m = ic if nc == -1 else nc
        if rng.random() < .6 or nc >= 0:
            op["kt"] = rng.randint(1, ic)
            op["nt"] = rng.randint(1, m) if m and tr else 0
        if wits and rng.random() < .6:
            op["toad"] = rng.randint(1, len(wits))
        if bad():
            k = rng.choice(("kt", "nt", "toad", "wits"))
            if k == "kt":
                op["kt"] = ic + 1
            elif k == "nt" and tr:
                op["nt"] = m + 1
            elif k == "toad":
                op["toad"] = len(wits) + 1
            elif k == "wits" and wits and tr:
                op["wits"] = wits + wits[:1]
        elif tr and rng.random() < .15:
            w.nsec += 1
            n = rng.randint(1, 4)
            x["secrets"] = [[Signer(raw=Diger(ser=b"in %d %d %d" % (w.nsec, r, i)).raw, transferable=True) for i in range(rng.randint(1, 3))]
                            for r in range(n)]
            op.update(lots=[[s.key(g.verfer.qb64) for g in l] for l in x["secrets"]], ir=rng.randint(0, n - 1), kt=0, nt=0, nc=max(nc, 1),
                      how=f"i{w.nsec}")
            ir = op["ir"]
            m = len(op["lots"][ir + 1]) if ir + 1 < n else op["nc"]
            if rng.random() < .5:
                op["kt"] = rng.randint(1, len(op["lots"][ir]))
                op["nt"] = rng.randint(1, m)
        live = {n["nm"] for n in o["names"]}
        if op["nm"] not in live and op["nm"] in s.stems and (op["lots"] or s.stems[op["nm"]]):
            op["nm"] = f"/n{nslot}"        # the keys of a name taken up again after taking secrets in: see reuse
        if op["nm"] not in live:
            s.stems[op["nm"]] = s.stems.get(op["nm"], False) or bool(op["lots"])
        return op, x
    if c == "rotate":
        h = some()
        y = next((y for y in o["ids"] if y["h"] == h), None)
        wits = y["wits"] if y else []
        op = dict(op=c, h=h, nc=rng.choice((-1, -1, -1, -1, 1, 1, 2, 2, 3, 3, 0)), kt=0, nt=0, toad=-1, cuts=[], adds=[])
        nn = len(y["nxt"]) if y else 1
        more = y["ks"]["more"] if y else []
        nc = len(more[0]) if more else nn if op["nc"] == -1 else op["nc"]
        if rng.random() < .6:
            op["kt"] = rng.randint(1, max(nn, 1))
        if nc and (rng.random() < .7 or nc < nn):
            op["nt"] = rng.randint(1, nc)
        if rng.random() < .35:
            op["cuts"] = rng.sample(wits, rng.randint(0, len(wits)))
            free = [n for n in range(1, 5) if n not in wits]
            op["adds"] = rng.sample(free, rng.randint(0, min(2, len(free), 4 - len(wits) + len(op["cuts"]))))
        nw = len(wits) - len(op["cuts"]) + len(op["adds"])
        if rng.random() < .4:
            op["toad"] = rng.randint(1, nw) if nw else 0
        if bad():
            k = rng.choice(("kt", "nt", "toad", "cuts", "adds", "dup"))
            if k == "kt":
                op["kt"] = nn + 1
            elif k == "nt":
                op["nt"] = nc + 1
            elif k == "toad":
                op["toad"] = nw + 1
            elif k == "cuts" and nw < 4:
                op["cuts"] = op["cuts"] + [next(n for n in range(1, 7) if n not in wits)]
            elif k == "adds" and wits and nw < 4:
                op["adds"] = op["adds"] + [rng.choice(wits)]
            elif k == "dup" and op["adds"] and nw < 4:
                op["adds"] = op["adds"] + op["adds"][:1]
        return op, x
    if c in ("interact", "speak"):
        x["data"] = [dict(d=f"d{x['n']}")] if rng.random() < .5 else None
        return dict(op=c, h=some()), x
    if c == "delete":
        nm = rng.choice(o["names"])["nm"] if o["names"] and rng.random() > .1 else "/".join(rng.choice(NAMES))
        return dict(op=c, nm=nm, h=0), x
    return dict(op=c, h=0), x


def record(w, out, home=None):
    rng, o = w.rng, w.o
    s = House(w, home)
    try:
        out.append({"e": "world", "o": s.observe()})
        kinds = [k for k, n in o["ops"].items() for _ in range(n)]
        nslot, crashed = 0, 0
        for j in range(rng.randint(*o["steps"])):
            c = "make" if j == 0 else rng.choice(kinds)
            op, x = choose(w, s, c, out[-1]["o"], nslot, None)
            nslot = max(nslot, op["h"]) if c == "make" else nslot
            if c in ("make", "rotate", "interact") and rng.random() < o["crash"] and not (c == "make" and op["lots"]):
                out.append(s.crash(op, x, rng.randint(0, rng.choice((4, 12, 40)))))
            else:
                out.append(s.do(op, x))
        return out
    finally:
        s.close()


def script(rng, h, out, home):
    """Do a history of HabMC."""
    w = World(rng, enc=.3)
    s = House(w, home)
    try:
        out.append({"e": "world", "o": s.observe()})
        for op in h[1:]:
            op, cut = dict(op), op["cut"]
            x = dict(nil=rng.choice((None, [])), n=rng.randint(0, 10**9), hexes=rng.random() < .7, algo=None, salt=None, data=None)
            if op["op"] != "make" and op["h"] and op["h"] not in s.slots:
                continue
            out.append(s.crash(op, x, cut) if cut else s.do(op, x))
    finally:
        s.close()


def reuse(rng):
    """Keys an identifier made of secrets taken in has in common with a deleted one of its name."""
    s = House(World(rng, enc=0))
    try:
        x = dict(nil=None, n=0, algo=None, salt=None)
        seen = []
        for n, c in enumerate((3, 2)):
            x["secrets"] = [[Signer(raw=Diger(ser=b"re %d %d" % (n, i)).raw, transferable=True) for i in range(c)]]
            s.do(dict(op="make", h=n + 1, nm="/bob", ic=3, nc=2, kt=0, nt=0, toad=-1, wits=[], tr=True, eo=False, tail=[], ir=0, how="",
                      lots=[[s.key(g.verfer.qb64) for g in x["secrets"][0]]]), x)
            y = next(y for y in s.observe()["ids"] if y["h"] == n + 1)
            seen.append(set(y["keys"] + y["nxt"]))
            s.do(dict(op="delete", nm="/bob", h=0), x)
        return seen[0] & seen[1]
    finally:
        s.close()
