"""Worlds of keystore operations for spec/Keep.tla and a driver that does them with the real
Manager on a real Keeper, and records what they answered and what is in the keystore."""
import os
import random
from functools import lru_cache

import keri_env  # noqa: F401
import lmdb
import pysodium
from keri.app import keeping
from keri.core import coring, signing
from keri.core.coring import Diger, Verfer
from keri.core.signing import Salter, Signer
from vcommon import guard

PROFILE = dict(steps=(8, 22), enc=.6, crash=0, undo=.15, temp=.2, bad=.12, big=.06,
               ops=dict(incept=5, rotate=7, replay=3, move=2, ingest=1, sign=4, unseal=1, setae=2, open=3))
STEMS = ["zulu", "yankee", "x-ray", "west"]
TIERS = ["low", "med", "high"]


def seedpair(n):
    s = Signer(raw=bytes([200 + n]) * 32, transferable=False)
    return s.verfer.qb64, s.qb64


SEEDS = {n: seedpair(n) for n in (1, 2, 3)}


@lru_cache(maxsize=200000)
def derived(salt, path, tier, temp, xf):
    return Salter(qb64=salt).signer(path=path, transferable=xf, tier=tier, temp=temp).verfer.qb64


class World:
    """What is chosen beforehand: the salts, the start, and the choices as they come."""

    def __init__(self, rng, **over):
        self.rng = rng
        self.o = o = dict(PROFILE, **over)
        self.salts = [Salter(raw=bytes(rng.getrandbits(8) for _ in range(16))).qb64 for _ in range(2)] \
            if rng.random() < .3 else [Salter(raw=b"0123456789abcde%d" % i).qb64 for i in range(2)]
        self.tier = rng.choice(TIERS) if rng.random() < .5 else None
        self.algo = "randy" if rng.random() < .2 else "salty"
        self.pidx = rng.choice((0, 0, 9, 15, 16))
        self.en = rng.choice((1, 2)) if rng.random() < o["enc"] else 0
        self.temp = rng.random() < o["temp"]
        self.nsec = rng.randint(0, 99)


class Store:
    _n = 0

    def __init__(self, w, home=None):
        self.w = w
        Store._n += 1
        self.home = home
        self.name = f"kp{os.getpid()}x{Store._n}"
        self.pubs = {}             # public key -> number
        self.pids = []             # number -> public key
        self.salts = {s: i for i, s in enumerate(w.salts, 1)}
        self.slots = {}            # slot -> prefix
        self.tails = {}            # slot -> transferability, whether temp, tier given
        self.cache = {}
        self.new = []
        self.torn = None           # the operation cut short
        self.mgr = None
        self.opened()
        self.mgr = self.make(w.en, w.en, algo=w.algo, salt=w.salts[0], pidx=w.pidx, tier=w.tier)

    def opened(self):
        kw = dict(temp=True) if self.home is None else dict(temp=False, headDirPath=self.home)
        self.ks = keeping.Keeper(name=self.name, reopen=True, **kw)

    def make(self, sd, ae, **kw):
        return keeping.Manager(ks=self.ks, seed=SEEDS[sd][1] if sd else None, aeid=SEEDS[ae][0] if ae else None, **kw)

    def close(self):
        self.ks.close(clear=True)

    # ---- naming
    def key(self, pub, claims=()):
        """The number of a public key; claims are (salt, stem, ridx, kidx) it may be derived from."""
        pub = pub.decode() if isinstance(pub, (bytes, bytearray, memoryview)) else pub
        if pub not in self.pubs:
            self.pubs[pub] = len(self.pids) + 1
            self.pids.append(pub)
            path = []
            for s, st, r, i, xf, tier in claims:
                stem = f"{int(st[1:]):x}" if st.startswith("#") else st
                if pub == derived(s, f"{stem}{r:x}{i:x}", tier, self.w.temp, xf):
                    path = [self.salts.get(s, -1), st, "" if self.w.temp else tier, r, i, xf]
                    break
            self.new.append({"p": path})
        return self.pubs[pub]

    def salt(self, qb64):
        return self.salts.setdefault(qb64, len(self.salts) + 1)

    # ---- the keystore as it is on disk
    def raw(self, sub):
        with self.ks.env.begin(db=sub.sdb) as txn:
            return [(bytes(k), bytes(v)) for k, v in txn.cursor()]

    def unlock(self, val, klas):
        """(primitive, encryption) of a stored secret, by whichever seed opens it."""
        val = val if isinstance(val, bytes) else val.encode()
        if (val, klas) not in self.cache:
            got = (None, -1)
            try:
                got = (klas(qb64b=val), 0)
            except Exception:
                for n, (_, seed) in SEEDS.items():
                    try:
                        p = signing.Decrypter(seed=seed).decrypt(qb64=val, klas=klas)
                        got = (p, n) if isinstance(p, klas) else (None, -1)
                        break
                    except Exception:
                        pass
            self.cache[val, klas] = got
        return self.cache[val, klas]

    def observe(self):
        ks = self.ks
        g = {k.decode(): v.decode() for k, v in self.raw(ks.gbls)}
        en = [n for n, (a, _) in SEEDS.items() if a == g.get("aeid")]
        root, re = self.unlock(g["salt"], Salter) if "salt" in g else (None, -1)
        ids, guess = [], []
        for slot, pre in sorted(self.slots.items()):
            pp, ps = ks.prms.get(pre), ks.sits.get(pre)
            if pp is None or ps is None or ks.pres.get(pre) is None:
                continue
            s, e = self.unlock(pp.salt, Salter) if pp.salt else (None, 0)
            sn = self.salt(s.qb64) if s is not None else 0 if e == 0 else -1
            st = "" if pp.algo == "randy" else pp.stem if pp.stem else f"#{pp.pidx}"
            claims = {}
            n, r = 0, 0
            if s is not None:
                while (got := ks.pubs.get(keeping.riKey(pre, r))) is not None:
                    for j, p in enumerate(got.pubs):
                        claims[p] = [(s.qb64, st, r, n + j, xf, t) for xf in (True, False)
                                     for t in ([pp.tier] if pp.tier else []) + [self.tails.get(slot, "low")]]
                    n, r = n + len(got.pubs), r + 1
            lot = lambda l: [self.key(p, claims.get(p, ())) for p in l.pubs]
            q, more = ps.nxt.ridx + 1 if ps.nxt.pubs else ps.new.ridx + 2, []
            while (got := ks.pubs.get(keeping.riKey(pre, q))) is not None:
                more.append(lot(got))
                q += 1
            if self.torn and self.torn["h"] == slot and s is not None:
                guess = [(s.qb64, st, r, n + j, xf, t) for j in range(20) for xf in (True, False)
                         for t in ([pp.tier] if pp.tier else []) + [self.tails.get(slot, "low")]]
            ids.append({"h": slot, "a": pp.algo, "s": sn,
                        "e": e, "st": st, "new": lot(ps.new), "nxt": lot(ps.nxt), "more": more})
            for p in claims:
                self.key(p, claims[p])
        plain = [] if root is None else [root]
        op, pris = self.torn, []
        if op and op["op"] == "incept" and op["a"] == "salty" and op["s"] >= 0:
            s = self.w.salts[max(op["s"], 1) - 1]
            guess = [(s, op["st"] or f"#{op['pidx']}", r, j, op["xf"], op["t"] or "low")
                     for r, js in ((0, range(op["ic"])), (1, range(op["ic"], op["ic"] + op["nc"]))) for j in js]
        for k, v in self.raw(ks.pris):
            sg, e = self.unlock(v, Signer)
            pub = k.decode()
            plain += [sg] if sg is not None else []
            if sg is None or coring.Verfer(qb64=pub).raw != sg.verfer.raw:
                e = -1
            pris.append({"k": self.key(pub, guess), "e": e})
        leak = []
        if g.get("aeid"):          # nothing that opens without the seed, wherever it is put
            words = {x for sg in plain for x in (sg.raw, sg.qb64b)}
            for name, sub in vars(ks).items():
                if hasattr(sub, "sdb") and any(w in v for _, v in self.raw(sub) for w in words):
                    leak.append(name)
        return {"leak": leak, "en": en[0] if en else 0 if not g.get("aeid") else -1, "root": self.salt(root.qb64) if root is not None else -1,
                "re": re, "pidx": int(g["pidx"], 16), "ids": ids, "pris": sorted(pris, key=lambda p: p["k"])}

    # ---- operations
    def pre(self, slot):
        return self.slots.get(slot) or coring.Diger(ser=b"none %d" % slot).qb64

    def perform(self, op, x):
        """Do it: (revealed, committed, signatures)."""
        m, w, c = self.mgr, self.w, op["op"]
        if c == "open":
            self.mgr = None
            self.mgr = self.make(op["sd"], op["ae"], salt=w.salts[1] if x.get("other") else None)
        elif c == "setae":
            m.updateAeid(SEEDS[op["ae"]][0] if op["ae"] else x["none"], SEEDS[op["sd"]][1] if op["sd"] else x["none"])
        elif c in ("incept", "ingest"):
            kw = dict(ncount=op["nc"], transferable=x["xf"], temp=w.temp, algo=x["algo"], stem=op["st"] or None,
                      tier=x["tier"], dcode=x["dcode"], rooted=x["rooted"])
            if x["salt"] is not None:
                kw["salt"] = w.salts[x["salt"] - 1]
            self.tails[op["h"]] = x["tier"] or w.tier or "low"
            if c == "incept":
                got = x["codes"]
                if got:
                    kw.update(icodes=["A"] * op["ic"], ncodes=["A"] * op["nc"] or None)
                vs, ds = m.incept(icount=op["ic"], **kw)
                self.slots[op["h"]] = vs[0].qb64
                return vs, ds
            ip, vss = m.ingest([[s.qb64 for s in l] for l in x["secrets"]], iridx=op["ir"], **kw)
            self.slots[op["h"]] = ip
            return [v for vs in vss for v in vs], [p for p in self.ks.pubs.get(keeping.riKey(ip, len(x["secrets"]))).pubs]
        elif c == "rotate":
            return m.rotate(x["as"](self.pre(op["h"])), ncount=op["nc"], transferable=x["xf"], temp=w.temp, erase=op["er"], dcode=x["dcode"])
        elif c == "replay":
            return m.replay(x["as"](self.pre(op["h"])), advance=op["adv"], erase=op["er"], dcode=x["dcode"])
        elif c == "undo":
            self.ks.sits.pin(self.pre(op["h"]), val=x["before"])
        elif c == "move":
            if op["to"] not in self.slots:
                self.slots[op["to"]] = x["name"]
                self.tails[op["to"]] = self.tails.get(op["h"], "low")
            m.move(old=self.pre(op["h"]), new=self.pre(op["to"]))
        elif c == "sign":
            ser = b"signed %d" % x["n"]
            vs = [Verfer(qb64=self.pids[k - 1]) for k in op["ks"]]
            kw = dict(verfers=vs) if x["byver"] else dict(pubs=[v.qb64 for v in vs])
            got = m.sign(ser, indexed=x["indexed"], indices=x["ix"], ondices=x["ox"], **kw)
            out = []
            for j, g in enumerate(got):
                good = j < len(vs) and vs[j].verify(g.raw, ser) and g.verfer.qb64 == vs[j].qb64
                o = g.ondex if x["indexed"] else -1
                out.append([op["ks"][j] if good else -1, g.index if x["indexed"] else -1, -1 if o is None else o])
            return [], [], out
        elif c == "unseal":
            to = self.pids[(x["for"] or op["k"]) - 1]
            box = pysodium.crypto_box_seal(b"a secret", pysodium.crypto_sign_pk_to_box_pk(Verfer(qb64=to).raw))
            if m.decrypt(box, **({"pubs": [self.pids[op["k"] - 1]]} if x["bypub"] else {"verfers": [Verfer(qb64=self.pids[op["k"] - 1])]})) != b"a secret":
                raise AssertionError("another text")
        return [], []

    def do(self, op, x):
        with guard(60):
            return self._do(op, x)

    def _do(self, op, x):
        line = {"e": "op", "op": op, "ok": True, "end": False, "vk": [], "dk": [], "sg": []}
        got = ([], [])
        if op["op"] in ("rotate", "replay"):
            x["before"] = self.ks.sits.get(self.pre(op["h"]))
        try:
            got = self.perform(op, x)
        except lmdb.Crash:
            raise
        except Exception as ex:
            line["ok"], line["end"] = False, isinstance(ex, IndexError)
            line["ex"] = f"{type(ex).__name__}: {ex}"[:120]
        return self.line(line, got)

    def line(self, line, got):
        line["o"] = self.observe()
        self.torn = None
        line["vk"] = [self.key(v.qb64) for v in got[0]]
        line["dk"] = [self.undigest(d) for d in got[1]]
        line["sg"] = got[2] if len(got) > 2 else []
        if line["op"]["op"] in ("incept", "ingest") and line["op"]["s"] == -1:
            line["op"]["s"] = next((y["s"] for y in line["o"]["ids"] if y["h"] == line["op"]["h"]), 0)
        line["new"] = self.new
        self.new = []
        return line

    def undigest(self, d):
        if isinstance(d, str):
            return self.key(d)
        for k, p in enumerate(self.pids, 1):
            if Diger(ser=p.encode(), code=d.code).qb64 == d.qb64:
                return k
        return 0

    def crash(self, op, x, n):
        """The operation cut short at commit n, and the keystore opened again; None if it did not come to that."""
        lmdb.FAULT.arm(n)
        try:
            line = self._do(op, x)
            return line
        except lmdb.Crash:
            pass
        finally:
            lmdb.FAULT.disarm()
        self.ks.env.close()
        self.opened()
        en = self.w.cur
        if op["op"] == "incept":
            for k, v in self.raw(self.ks.pres):
                if k.decode() not in self.slots.values():
                    self.slots[op["h"]] = k.decode()
            self.tails.setdefault(op["h"], x["tier"] or self.w.tier or "low")
        self.torn = dict(op, pidx=x["pidx"])
        self.mgr = self.make(en, en)
        return self.line({"e": "crash", "op": op, "ok": False, "end": False}, ([], []))


# ---------------------------------------------------------------- one world
def record(w, out, home=None):
    rng, o = w.rng, w.o
    s = Store(w, home)
    try:
        w.cur = w.en
        out.append({"e": "world", "en": w.en, "root": 1, "pidx": w.pidx, "o": s.observe()})
        nslot = 0
        undo = None
        opened = True
        kinds = [k for k, n in o["ops"].items() for _ in range(n)]
        n = rng.randint(*o["steps"])
        crashed = False
        while n > 0:
            n -= 1
            c = rng.choice(kinds)
            if not opened:
                c = "open" if rng.random() < .7 else c
                if c in ("undo",):
                    continue
            live = [y["h"] for y in out[-1]["o"]["ids"]]
            if undo and rng.random() < .6 and opened:
                op, x = dict(op="undo", h=undo[0]), dict(before=undo[1])
            else:
                got = choose(w, s, c, live, nslot)
                if got is None:
                    continue
                op, x = got
            nslot = max(nslot, op.get("h", 0), op.get("to", 0))
            # what follows an undo reveals the same keys again
            if op["op"] == "rotate" and x.get("first"):
                op, x = dict(op="replay", h=op["h"], adv=True, er=op["er"]), x
            if opened and not crashed and op["op"] in ("incept", "rotate", "replay") and rng.random() < o["crash"]:
                x["pidx"] = out[-1]["o"]["pidx"]
                line = s.crash(op, x, rng.randint(0, 12))
                crashed = line["e"] == "crash"
            else:
                if not opened and op["op"] != "open":
                    continue
                line = s.do(op, x)
            out.append(line)
            if op["op"] == "open":
                opened = line["ok"]
                if not opened:
                    n += 1
                elif w.cur == 0:
                    w.cur = op["ae"]
            if op["op"] == "setae" and line["ok"]:
                w.cur = op["ae"]
            undo = (op["h"], x["before"]) if op["op"] in ("rotate", "replay") and line["ok"] and line["e"] == "op" and not op["er"] \
                and op.get("adv", True) and rng.random() < o["undo"] else None
        return out
    finally:
        s.close()


def choose(w, s, c, live, nslot):
    rng, o = w.rng, w.o
    some = lambda: rng.choice(live) if live and rng.random() > .04 else rng.randint(1, nslot + 1) if nslot else 1
    enc = lambda v: v.encode() if rng.random() < .3 else v
    x = dict(xf=rng.random() < .9, dcode=rng.choice(["E", "E", "I", "F"]))
    x["as"] = enc
    if c in ("incept", "ingest"):
        rooted = rng.random() < .85
        algo = None if rooted and rng.random() < .4 else rng.choice(("salty", "salty", "randy"))
        if c == "ingest":
            algo = algo or "salty"
        a = algo or w.algo
        st = rng.choice(STEMS) + (str(rng.randint(0, 1)) + "-" if rng.random() < .2 else "") if rng.random() < .5 else ""
        si = rng.choice((1, 2, 2)) if rng.random() < .5 else None
        x.update(algo=algo, tier=rng.choice(TIERS) if rng.random() < .3 else None, rooted=rooted, salt=si, codes=rng.random() < .3)
        if not rooted and x["tier"] is None:
            x["tier"] = "low"
        t = "" if w.temp or a == "randy" else x["tier"] or w.tier or "low"
        many = lambda: rng.randint(14, 18) if rng.random() < o["big"] else rng.randint(1, 4)
        op = dict(op=c, h=nslot + 1, xf=x["xf"], t=t, a=a, s=0 if a == "randy" else si or (0 if rooted else -1), st=st, ic=many(),
                  nc=0 if rng.random() < .12 else many())
        if rng.random() < o["bad"] * .4:
            op["ic" if c == "incept" and rng.random() < .5 else "nc"] = -1 if rng.random() < .5 or c == "ingest" else 0
        if c == "incept":
            if x["codes"] and (op["ic"] < 1 or op["nc"] < 1):
                x["codes"] = False
            return op, x
        op["nc"] = max(op["nc"], 1)
        w.nsec += 1
        base = w.nsec if rng.random() > .08 else 0
        x["secrets"] = [[Signer(raw=Diger(ser=b"in %d %d %d" % (base, r, i)).raw, transferable=x["xf"])
                         for i in range(rng.randint(1, 3))] for r in range(rng.randint(1, 4))]
        op.update(lots=[[s.key(g.verfer.qb64) for g in l] for l in x["secrets"]], ir=rng.randint(0, len(x["secrets"]) - 1))
        return op, x
    if c == "rotate":
        h = some()
        pre = s.slots.get(h)
        ps = s.ks.sits.get(pre) if pre else None
        if ps is not None and ps.nxt.pubs and s.ks.pubs.get(keeping.riKey(pre, ps.nxt.ridx + 1)) is not None:
            x["first"] = True
        return dict(op=c, h=h, xf=x["xf"], nc=rng.randint(-1, 0) if rng.random() < o["bad"] else rng.randint(14, 18) if rng.random() < o["big"] else rng.randint(1, 4),
                    er=rng.random() < .6), x
    if c == "replay":
        return dict(op=c, h=some(), adv=rng.random() < .6, er=rng.random() < .5), x
    if c == "move":
        new = rng.random() > .25
        to = nslot + 1 if new else some()
        x["name"] = coring.Diger(ser=b"moved %d" % to).qb64
        return dict(op=c, h=some(), to=to), x
    if c == "sign":
        if not s.pids:
            return None
        held = sorted({p["k"] for p in s.observe()["pris"]})
        ks = [rng.choice(held) if held and rng.random() > .06 else rng.randint(1, len(s.pids)) for _ in range(rng.randint(1, 4))]
        x.update(n=rng.randint(0, 9), byver=rng.random() < .5, indexed=rng.random() < .75, ix=None, ox=None)
        okargs = True
        if rng.random() < .5:
            x["ix"] = [rng.choice((rng.randint(0, 5), rng.randint(0, 70))) for _ in ks]
            x["ox"] = [rng.choice((None, i, rng.randint(0, 70))) for i in x["ix"]] if rng.random() < .6 else None
            if x["indexed"] and rng.random() < o["bad"]:
                okargs = False
                (x["ix"] if x["ox"] is None or rng.random() < .5 else x["ox"]).append(1)
        ix = x["ix"] or list(range(len(ks)))
        ox = x["ox"] or ix
        want = [[k, i, -1 if p is None else p] if x["indexed"] else [k, -1, -1] for k, i, p in zip(ks, ix, ox)]
        return dict(op=c, ks=ks, okargs=okargs, want=want), x
    if c == "unseal":
        held = sorted({p["k"] for p in s.observe()["pris"]})
        if not held:
            return None
        k = rng.choice(held) if rng.random() > .1 else rng.randint(1, len(s.pids))
        other = rng.random() < .15 and len(held) > 1
        x.update(bypub=rng.random() < .5)
        x["for"] = rng.choice([y for y in held if y != k]) if other else 0
        return dict(op=c, k=k, good=not other), x
    if c == "setae":
        ae = rng.choice((0, 1, 2, 3))
        sd = ae if rng.random() > .25 else rng.choice((0, 1, 2, 3))
        x["none"] = rng.choice((None, ""))
        return dict(op=c, ae=ae, sd=sd), x
    if c == "open":
        ae = rng.choice((0, w.cur, w.cur, 1, 2))
        sd = (w.cur or ae) if rng.random() > .3 else rng.choice((0, 1, 2, 3))
        x["other"] = rng.random() < .3
        return dict(op=c, sd=sd, ae=ae), x


# ---------------------------------------------------------------- a given history
def script(rng, h, out):
    """Do the operations of h (KeepMC.tla); then sign with every key and open for one."""
    w = World(rng, temp=.8, enc=0)
    w.en, w.pidx, w.tier, w.algo = h[0]["en"], 0, None, "salty"
    s = Store(w)
    try:
        w.cur = w.en
        out.append({"e": "world", "en": w.en, "root": 1, "pidx": 0, "o": s.observe()})
        before = None
        for op in h[1:]:
            op = dict(op)
            x = dict(xf=True, dcode=rng.choice("EIF"), none=None, other=rng.random() < .3)
            x["as"] = (lambda v: v.encode()) if rng.random() < .3 else (lambda v: v)
            if op["op"] in ("incept", "ingest"):
                op["t"] = "" if w.temp or op["a"] == "randy" else "low"
                if op["st"]:
                    op["st"] = STEMS[0]
                x.update(algo=op["a"], tier=None, rooted=True, salt=op["s"] or None, codes=rng.random() < .3 and op["nc"] > 0)
            if op["op"] == "ingest":
                w.nsec += 1
                x["secrets"] = [[Signer(raw=Diger(ser=b"in %d %d %d" % (w.nsec, r, i)).raw, transferable=True) for i in range(len(l))]
                                for r, l in enumerate(op["lots"])]
                op["lots"] = [[s.key(g.verfer.qb64) for g in l] for l in x["secrets"]]
            if op["op"] == "move":
                x["name"] = coring.Diger(ser=b"moved %d" % op["to"]).qb64
            if op["op"] == "undo":
                x["before"] = before
            out.append(s.do(op, x))
            before = x.get("before")
            if op["op"] == "open" and out[-1]["ok"]:
                w.cur = w.cur or op["ae"]
        if s.mgr is None or not out[-1].get("ok", True):
            op = dict(op="open", sd=out[-1]["o"]["en"], ae=0)
            out.append(s.do(op, dict()))
        held = [p["k"] for p in out[-1]["o"]["pris"]]
        if held:
            out.append(s.do(dict(op="sign", ks=held, okargs=True, want=[[k, j, j] for j, k in enumerate(held)]),
                            dict(n=1, byver=True, indexed=True, ix=None, ox=None)))
            k = rng.choice(held)
            out.append(s.do(dict(op="unseal", k=k, good=True), {"bypub": False, "for": 0}))
    finally:
        s.close()
