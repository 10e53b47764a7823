"""Worlds of registries and credentials for spec/Tel.tla: random tables of key events,
transaction events and credentials, and a driver that delivers them to the real validators
and records what they did."""
import os
from types import SimpleNamespace

import keri_env  # noqa: F401
import keri
import lmdb
from keri.core import coring, eventing, indexing, parsing, scheming, serdering
from keri.core.structing import SealEvent, SealSource
from keri.db import basing
from keri.kering import Ilks, Kinds, Vrsn_1_0, Vrsn_2_0, versify
from keri.vc import proving
from keri.vdr import eventing as vdreventing
from keri.vdr import verifying
from kelworld import signer, nextdig
from vcommon import guard

NONE = {"live": False}
STAMP = "2026-01-01T00:00:00.000000+00:00"
SIMPLE, BACKED = ("iss", "rev"), ("bis", "brv")
OPS = [None, None, "I2I", "NI2I", "E1E", ["I2I", "NI2I"], ["NI2I", "E1E"], ["E1E", "I2I"], [], "DI2I", "NOT",
       ["NI2I", "I2I"], ["huh"], "huh", ["NI2I", "huh"]]


def junkdig(n=0):
    return coring.Diger(ser=b"junk%d" % n).qb64


def makeschema(n):
    """Schema n: the attributes must have a member pn."""
    sad = {"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "title": f"S{n}", "type": "object",
           "properties": {"a": {"type": "object", "required": [f"p{n}"],
                                "properties": {f"p{n}": {"type": "string"}}}},
           "required": ["a"]}
    _, sad = coring.Saider.saidify(sad=sad, code=coring.MtrDex.Blake3_256, kind=Kinds.json, label="$id")
    return scheming.Schemer(sed=sad)


NSCHEMA = 3
SCHEMAS = {}


def schema(n):
    if n not in SCHEMAS:
        SCHEMAS[n] = makeschema(n)
    return SCHEMAS[n]


class World:
    """np identifiers (1..), nr registries (1..) and credentials (logs nr+1..)."""

    def __init__(self, rng, **over):
        o = dict(aids=(2, 3), regs=(1, 3), vrts=(0, 2), creds=(1, 4), backed=.4, revoke=.5, bad=.2, foreign=.15,
                 forge=.12, badanchor=.2, noanchor=.08, supersede=.3, twin=.2, edges=.5, own=.0, partial=.3,
                 noise=.3, dup=.3, shuffle=.5, badcouple=.25, nocouple=.05, kelfirst=.4, esc=.15, junk=.1, ops=OPS,
                 nocred=.0, big=.03, long=.03, latesch=.15, schemas=.5, v2=.2)
        o.update(over)
        self.o, self.rng = o, rng
        r = rng
        self.np = r.randint(*o["aids"])
        self.kev, self.kser = [], {}      # key events: records, serders
        self.klog = {p: [] for p in range(1, self.np + 1)}       # current chain
        self.keyno = {}                   # identifier -> keys used so far
        self.pres = {}
        self.tev, self.tser = [], {}
        self.cr, self.cser = [], {}
        self.anchors = {}                 # tev -> key events sealing it properly
        for p in range(1, self.np + 1):
            self.icp(p)
        self.nr = r.randint(*o["regs"])
        self.regs()
        self.credentials()
        self.own = [g for g in range(1, self.nr + 1) if r.random() < o["own"]]
        self.issues()
        self.anchor()
        self.bysaid = {s.said: x for x, s in self.tser.items()}
        self.kbysaid = {s.said: k for k, s in self.kser.items()}
        self.cbysaid = {s.said: c for c, s in self.cser.items()}

    # -- key events
    def kadd(self, p, s, a, ser, key):
        self.kev.append({"p": p, "s": s, "a": a})
        k = len(self.kev)
        self.kser[k] = ser
        ser._key = key
        return k

    def icp(self, p):
        self.keyno[p] = 100 * p
        ser = eventing.incept(keys=[signer(100 * p).verfer.qb64], ndigs=[nextdig(100 * p + 1)],
                              code=coring.MtrDex.Blake3_256, kind=Kinds.json, pvrsn=Vrsn_1_0)
        self.pres[p] = ser.pre
        self.klog[p] = [self.kadd(p, 0, [], ser, 100 * p)]

    def ixn(self, p, seals, recs):
        last = self.kser[self.klog[p][-1]]
        ser = eventing.interact(pre=self.pres[p], dig=last.said, sn=last.sn + 1, data=seals, kind=Kinds.json, pvrsn=Vrsn_1_0)
        k = self.kadd(p, last.sn + 1, recs, ser, self.keyno[p])
        self.klog[p].append(k)
        return k

    def rot(self, p, s, seals, recs):
        """A rotation at s: superseding when s is not next."""
        prior = self.kser[self.klog[p][s - 1]]
        self.keyno[p] += 1
        n = self.keyno[p]
        ser = eventing.rotate(pre=self.pres[p], keys=[signer(n).verfer.qb64], dig=prior.said, sn=s,
                              ndigs=[nextdig(n + 1)], data=seals, kind=Kinds.json, pvrsn=Vrsn_1_0)
        k = self.kadd(p, s, recs, ser, n)
        self.klog[p] = self.klog[p][:s] + [k]
        return k

    # -- transaction events
    def tadd(self, ser, **rec):
        base = dict(t="", i=0, r=0, s=0, pr=0, ii=0, nb=False, b=[], br=[], ba=[], bt=0, ra=0)
        base.update(rec)
        self.tev.append(base)
        x = len(self.tev)
        self.tser[x] = ser
        return x

    def made(self, **sad):
        ked = dict(v=versify(pvrsn=Vrsn_1_0, kind=Kinds.json, size=0), **sad)
        return serdering.SerderKERI(sad=ked, makify=True)

    def baker(self, b):
        return signer(b, False).verfer.qb64

    def regs(self):
        r, o = self.rng, self.o
        self.rid = {}
        self.tip = {}                     # registry -> its last honest event
        self.baks = {}                    # event -> backers, as meant
        for g in range(1, self.nr + 1):
            ii = r.randint(1, self.np)
            nb = r.random() >= o["backed"]
            b = [] if nb else r.sample(range(901, 906), r.choice((0, 1, 1, 2, 3)))
            if b and r.random() < o["big"]:     # thresholds past one digit
                b = r.sample(range(901, 921), r.randint(10, 17))
            bt = 0 if not b else r.choice((r.randint(1, len(b)), len(b)))
            if r.random() < o["bad"] * .15 and not nb:     # impossible backers
                if b and r.random() < .5:
                    b = b + [b[0]]
                else:
                    bt = r.choice((len(b) + 1, 0 if b else 1))
            ser = self.made(t="vcp", d="", i="", ii=self.pres[ii], s="0", c=["NB"] if nb else [],
                            bt=f"{bt:x}", b=[self.baker(x) for x in b], n=coring.Diger(ser=b"nonce%d" % r.getrandbits(40)).qb64)
            x = self.tadd(ser, t="vcp", i=g, r=g, s=0, ii=ii, nb=nb, b=b, bt=bt)
            self.rid[g] = ser.pre
            self.tip[g] = x
            self.baks[x] = (b, bt)
        for g in range(1, self.nr + 1):
            far = not self.tev[g - 1]["nb"] and r.random() < o["long"]   # sequence numbers past one digit
            for n in range(r.randint(15, 18) if far else
                           r.randint(*o["vrts"]) if not self.tev[g - 1]["nb"] or r.random() < .1 else 0):
                twin = r.random() < o["twin"] and not (far and n < 14)
                a = self.vrt(g, self.tip[g])
                if twin:
                    b = self.vrt(g, self.tip[g])
                    a = r.choice((a, b))
                if not self.tev[a - 1].get("_bad"):
                    self.tip[g] = a
        for e in self.tev:
            e.pop("_bad", None)

    def vrt(self, g, prior):
        r, o = self.rng, self.o
        b, _ = self.baks[prior]
        e = self.tev[prior - 1]
        br = r.sample(b, r.randint(0, len(set(b)) if len(set(b)) < 2 else 2)) if len(set(b)) == len(b) else []
        more = [x for x in range(901, 923) if x not in b]
        ba = r.sample(more, min(len(more), r.choice((0, 1, 1, 2))))
        after = [x for x in b if x not in br] + ba
        bt = r.randint(1, len(after)) if after else 0
        s, pr, bad = e["s"] + 1, prior, False
        if r.random() < o["bad"]:
            bad = True
            how = r.choice(("cut", "add", "both", "toad", "prior", "sn", "dupcut", "dupadd"))
            if how == "cut":
                br = br + [r.choice([x for x in range(901, 925) if x not in b])]
            elif how == "add" and b:
                ba = ba + [r.choice([x for x in b if x not in br] or b)]
            elif how == "both" and b:
                br = list(dict.fromkeys(br + [b[0]]))
                ba = ba + [b[0]]
            elif how == "toad":
                bt = r.choice((len(after) + 1, 0 if after else 1))
            elif how == "prior":
                pr = -1
            elif how == "sn":
                s = r.choice((s + 1, s - 1, s + 5))
            elif how == "dupcut" and br:
                br = br + [br[0]]
            elif how == "dupadd" and ba:
                ba = ba + [ba[0]]
            else:
                bad = False
        ser = self.made(t="vrt", d="", i=self.rid[g], p=self.tser[pr].said if pr > 0 else junkdig(1), s=f"{s:x}",
                        bt=f"{bt:x}", br=[self.baker(x) for x in br], ba=[self.baker(x) for x in ba])
        if ser.said in {z.said for z in self.tser.values()}:
            return prior
        x = self.tadd(ser, t="vrt", i=g, r=g, s=s, pr=pr, b=[], br=br, ba=ba, bt=bt)
        self.tev[-1]["_bad"] = bad
        self.baks[x] = (after, bt)
        return x

    # -- credentials
    def credentials(self):
        r, o = self.rng, self.o
        for c in range(1, r.randint(*o["creds"]) + 1):
            g = r.randint(1, self.nr)
            i = self.tev[g - 1]["ii"]
            if r.random() < o["forge"]:
                i = r.randint(1, self.np)
            sub = r.choice((0, *range(1, self.np + 1)))
            has = [n for n in range(1, NSCHEMA + 1) if r.random() < .5]
            sc = r.choice(has) if has and r.random() < .9 else r.randint(1, NSCHEMA)
            ed = []
            if c > 1 and r.random() < o["edges"]:
                for _ in range(r.choice((1, 1, 2))):
                    n = r.randint(1, c - 1)
                    if r.random() < .1:
                        n = 0
                    if n and r.random() < .5 and self.cr[n - 1]["sub"]:
                        i = self.cr[n - 1]["sub"] if r.random() < .5 else i
                        if r.random() < .5:
                            sub = self.cr[n - 1]["sub"]
                    op = r.choice(o["ops"])
                    s = r.choice((0, self.cr[n - 1]["sc"] if n else 1, r.randint(1, NSCHEMA),
                                  r.choice(self.cr[n - 1]["sat"] or [1]) if n else 1))
                    ed.append((n, op, s))
            if r.random() > o["forge"]:     # an issuer's own registry, when there is one
                gs = [h for h in range(1, self.nr + 1) if self.tev[h - 1]["ii"] == i]
                g = r.choice(gs) if gs else g
                i = i if gs else self.tev[g - 1]["ii"]
            data = {f"p{n}": f"v{c}x{r.getrandbits(30)}" for n in has}
            data["dt"] = STAMP
            data["z"] = f"{r.getrandbits(40):x}"
            edge = None
            if ed:
                blocks = []
                for j, (n, op, s) in enumerate(ed):
                    node = {"n": self.cser[n].said if n else junkdig(2)}
                    if op is not None:
                        node["o"] = op
                    if s:
                        node["s"] = schema(s).said
                    blocks.append((f"e{j}", node))
                if len(blocks) > 1 and r.random() < .3:
                    edge = [dict([b]) for b in blocks]
                else:
                    edge = dict(d="", **dict(blocks))
                    _, edge = coring.Saider.saidify(sad=edge, label="d")
            ser = proving.credential(schema=schema(sc).said, issuer=self.pres[i], data=data,
                                     recipient=self.pres[sub] if sub else None, status=self.rid[g], source=edge,
                                     version=Vrsn_1_0)
            self.cser[c] = ser
            self.cr.append({"i": i, "r": g, "sub": sub, "sc": sc, "sat": has,
                            "ed": [{"n": n, "o": [op] if isinstance(op, str) else list(op or []), "s": s}
                                   for n, op, s in ed]})

    def vev(self, t, c, g, s, pr, ra=0, ras=None):
        vc = self.cser[c].said
        sad = dict(t=t, d="", i=vc)
        if t == "bis":
            sad["ii"] = self.rid[g]
        sad["s"] = f"{s:x}"
        if t == "rev":
            sad["ri"] = self.rid[g]
        if t in ("rev", "brv"):
            sad["p"] = self.tser[pr].said if pr > 0 else junkdig(3)
        if t == "iss":
            sad["ri"] = self.rid[g]
        if t in BACKED:
            z = self.tser.get(ra)
            sn = ras if ras is not None else (z.sn if z else 0)
            sad["ra"] = dict(i=self.rid[g], s=f"{sn:x}", d=z.said if z else junkdig(4))
            if z is None or sn != z.sn or self.tev[ra - 1]["i"] != g:
                ra = 0
        sad["dt"] = STAMP[:20] + f"{self.rng.getrandbits(19):06d}" + "+00:00"
        return self.tadd(self.made(**sad), t=t, i=self.nr + c, r=g, s=s, pr=pr, ra=ra)

    def issues(self):
        r, o = self.rng, self.o
        for c in range(1, len(self.cr) + 1):
            g = self.cr[c - 1]["r"]
            alts = []
            if r.random() < o["foreign"]:
                alts.append(r.randint(1, self.nr))
            alts.append(g)
            if r.random() < .1:
                alts.append(g)
            firsts = []
            for h in alts:
                firsts.append(self.vfirst(c, h))
            if r.random() < o["revoke"]:
                for _ in range(r.choice((1, 1, 2))):
                    f = r.choice(firsts)
                    h = self.tev[f - 1]["r"]
                    if r.random() < o["foreign"]:
                        h = r.randint(1, self.nr)
                    self.vlast(c, h, f)
            if r.random() < o["bad"] * .5:      # revoked twice, or nothing to revoke
                self.vlast(c, g, len(self.tev), s=2)

    def pickra(self, g):
        r, o = self.rng, self.o
        evs = [x for x, e in enumerate(self.tev, 1) if e["i"] == g and e["t"] in ("vcp", "vrt")]
        if r.random() < o["bad"] * .3:
            return r.choice((0, r.choice([x for x, e in enumerate(self.tev, 1) if e["t"] in ("vcp", "vrt")])))
        return self.tip[g] if r.random() < .7 else r.choice(evs)

    def ilk(self, g, pair):
        nb = self.tev[g - 1]["nb"]
        if self.rng.random() < self.o["bad"] * .3:
            nb = not nb
        return pair[0] if nb else pair[1]

    def vfirst(self, c, g):
        t = self.ilk(g, ("iss", "bis"))
        s = 0 if self.rng.random() > self.o["bad"] * .1 else 1
        return self.vev(t, c, g, s, 0, ra=self.pickra(g) if t == "bis" else 0)

    def vlast(self, c, g, pr, s=1):
        r, o = self.rng, self.o
        t = self.ilk(g, ("rev", "brv"))
        if r.random() < o["bad"] * .3:
            pr = -1
        if r.random() < o["bad"] * .2:
            s = r.choice((0, 2, 3))
        return self.vev(t, c, g, s, pr, ra=self.pickra(g) if t == "brv" else 0)

    # -- anchors
    def seal(self, x):
        e = self.tser[x]
        return {"i": e.pre, "s": e.ked["s"], "d": e.said}, {"i": self.tev[x - 1]["i"], "s": self.tev[x - 1]["s"], "x": x}

    def anchor(self):
        r, o = self.rng, self.o
        plan = []
        for x in range(1, len(self.tev) + 1):
            e = self.tev[x - 1]
            p = e["ii"] if e["t"] == "vcp" else self.tev[e["r"] - 1]["ii"]
            if r.random() < o["badanchor"]:
                plan.append((p, x, r.choice(("two", "sn", "pre", "foreign", "digest", "empty", "dig"))))
            if r.random() >= o["noanchor"]:
                plan.append((p, x, "good"))
        if r.random() < o["shuffle"] * .5:
            r.shuffle(plan)
        for j, (p, x, how) in enumerate(plan):
            seal, rec = self.seal(x)
            if how == "good":
                k = self.ixn(p, [seal], [rec]) if r.random() < .9 else self.rot(p, len(self.klog[p]), [seal], [rec])
                self.anchors.setdefault(x, []).append(k)
            elif how == "two":
                other, orec = self.seal(r.randint(1, len(self.tev)))
                two = [(seal, rec), (other, orec)]
                r.shuffle(two)
                self.ixn(p, [z[0] for z in two], [z[1] for z in two])
            elif how == "sn":
                n = self.tev[x - 1]["s"] + 1
                self.ixn(p, [dict(seal, s=f"{n:x}")], [dict(rec, s=n)])
            elif how == "pre":
                self.ixn(p, [dict(seal, i=junkdig(5))], [dict(rec, i=0)])
            elif how == "foreign":
                q = r.choice([z for z in range(1, self.np + 1) if z != p] or [p])
                k = self.ixn(q, [seal], [rec])
                if q == p:
                    self.anchors.setdefault(x, []).append(k)
            elif how == "digest":
                self.ixn(p, [{"d": self.tser[x].said}], [{"i": -1, "s": -1, "x": x}])
            elif how == "empty":
                self.ixn(p, [], [])
            else:
                self.ixn(p, [dict(seal, d=junkdig(6))], [dict(rec, x=0)])
            if r.random() < o["supersede"] * .15:
                # recovery: a rotation takes the place of some of the last interactions
                n = len(self.klog[p])
                s = max(1, n - r.randint(1, 3))
                est = max((m for m, k in enumerate(self.klog[p]) if self.kser[k].ilk in ("icp", "rot")))
                s = max(s, est + 1)
                if s < n:
                    gone = self.klog[p][s:]
                    self.rot(p, s, [], [])
                    for k in gone:      # sealed again, or not
                        for z, ks in self.anchors.items():
                            if k in ks and r.random() < .6:
                                sl, rc = self.seal(z)
                                ks.append(self.ixn(p, [sl], [rc]))

    def table(self):
        return {"e": "world", "np": self.np, "nr": self.nr, "tev": self.tev, "kev": self.kev, "cr": self.cr,
                "own": list(self.own)}


# ---------------------------------------------------------------- deliveries
def couple(world, x):
    """The anchor couple to attach: [key event named (0 none, -1 junk), sequence number]."""
    r, o = world.rng, world.o
    if r.random() < o["nocouple"]:
        return (0, 0)
    ks = world.anchors.get(x)
    if not ks or r.random() < o["badcouple"]:
        k = r.choice((-1, *range(1, len(world.kev) + 1)))
        if k < 0:
            return (-1, r.randint(0, 3))
        s = world.kev[k - 1]["s"]
        return (k, s if r.random() < .7 else s + r.choice((1, -1)) if s else 1)
    k = r.choice(ks)
    return (k, world.kev[k - 1]["s"])


def backers(world, x):
    e = world.tev[x - 1]
    return world.baks[e["ra"]][0] if e["t"] in BACKED and e["ra"] in world.baks else world.baks.get(x, ([], 0))[0]


def sigs(world, x, full=False):
    r, o = world.rng, world.o
    b = backers(world, x)
    wg = [(w, j, True) for j, w in enumerate(b)]
    if not full and b and r.random() < o["partial"]:
        wg = r.sample(wg, r.randint(0, len(wg)))
    if r.random() < o["noise"]:
        for _ in range(r.randint(1, 2)):
            how = r.choice(("forged", "index", "stranger", "again"))
            if how == "forged" and b:
                j = r.randrange(len(b))
                wg.insert(r.randint(0, len(wg)), (b[j], j, False))
            elif how == "index" and b:
                wg.append((b[0], r.randint(0, 5), True))
            elif how == "stranger":
                wg.append((910, r.randint(0, 2), True))
            elif wg:
                wg.append(r.choice(wg))
    if r.random() < .3:
        r.shuffle(wg)
    return wg


def deliver(world, x, full=False):
    r, o = world.rng, world.o
    own = world.tev[x - 1]["r"] in world.own
    loc = own if r.random() > .1 * bool(world.own) else not own
    if loc and own:
        full = True
    k, s = couple(world, x)
    if full and world.anchors.get(x):
        k = r.choice(world.anchors[x])
        s = world.kev[k - 1]["s"]
    return dict(e="tel", x=x, cp=(k, s), wg=sigs(world, x, full), loc=loc, gv=2 if r.random() < o["v2"] else 1)


def tesc(r):
    return dict(e="tesc", by=r.choice((["tvy", "ltvy"], ["ltvy", "tvy"], ["rtvy"], ["rtvy", "tvy"], ["tvy", "rtvy"],
                                       ["ltvy", "rtvy", "tvy"])))


def schedule(world):
    r, o = world.rng, world.o
    kel = [dict(e="kel", k=k) for k in range(1, len(world.kev) + 1)]
    tel = []
    for x in range(1, len(world.tev) + 1):
        tel.append(deliver(world, x))
        while r.random() < o["dup"]:
            tel.append(deliver(world, x))
    if r.random() < o["shuffle"]:
        r.shuffle(tel)
    else:
        for _ in range(r.randint(0, 3)):
            a = r.randrange(len(tel))
            tel.insert(r.randrange(len(tel)), tel.pop(a))
    rest = []
    for c in range(1, len(world.cr) + 1):
        if r.random() >= o["nocred"]:
            for _ in range(r.choice((1, 1, 2))):
                rest.append(dict(e="cred", c=c))
    known = [dict(e="sch", c=n) for n in range(1, NSCHEMA + 1) if r.random() < .9]
    late = [st for st in known if r.random() < .6] if r.random() < o["latesch"] else []
    rest += [st for st in known if st not in late]
    # merge: key events in order, the others anywhere
    out = list(tel)
    for st in rest:
        out.insert(r.randint(0, len(out)), st)
    if r.random() < o["kelfirst"]:
        out = kel + out
    elif r.random() < .3:
        out = out + kel
    else:
        at = sorted(r.randint(0, len(out)) for _ in kel)
        merged, j = [], 0
        for n in range(len(out) + 1):
            while j < len(kel) and at[j] <= n:
                merged.append(kel[j])
                j += 1
            if n < len(out):
                merged.append(out[n])
        out = merged
    final = []
    for st in out:
        final.append(st)
        if r.random() < o["esc"]:
            final.append(r.choice((tesc(r), dict(e="cesc"))))
        if r.random() < o["junk"] * .3:
            final.append(dict(e="junk", how=r.choice(("cred", "tel")), n=r.getrandbits(16)))
    if late and r.random() < .5:
        final += [tesc(r), dict(e="cesc")]
    for st in late:
        final.append(st)
        if r.random() < .3:
            final.append(dict(e="cesc"))
    final += [tesc(r), dict(e="cesc")]
    # then all again, as it should be
    if r.random() < .6:
        final += [deliver(world, x, full=r.random() < .8) for x in range(1, len(world.tev) + 1)]
        final += [tesc(r), dict(e="cesc")]
    return final


# ---------------------------------------------------------------- the validator
class Validator:
    _n = 0

    def __init__(self, world, home=None):
        self.w = world
        Validator._n += 1
        self.name = f"tel{os.getpid()}x{Validator._n}"
        self.home = home
        self.opened()
        self.seen = {}

    def opened(self):
        kwa = dict(temp=False, headDirPath=self.home) if self.home else dict(temp=True)
        self.db = basing.Baser(name=self.name, reopen=True, **kwa)
        if self.home:
            if self.db.version is None:
                self.db.version = keri.__version__
            self.db.reload()
        self.reger = vdreventing.Reger(name=self.name + "r", db=self.db, reopen=True, **kwa)
        for g in self.w.own:
            self.reger.registries.add(self.w.rid[g])
        self.kvy = eventing.Kevery(db=self.db, lax=True, local=False)
        self.tvy = vdreventing.Tevery(reger=self.reger, db=self.db, local=False)
        self.ltvy = vdreventing.Tevery(reger=self.reger, db=self.db, local=True)
        self.rtvy = vdreventing.Tevery(reger=self.reger, db=self.db, local=True, lax=True)   # as Regery's
        hby = SimpleNamespace(inited=True, db=self.db, kvy=self.kvy, version=Vrsn_1_0, name=self.name, temp=not self.home)
        self.vry = verifying.Verifier(hby=hby, reger=self.reger)
        self.psr = parsing.Parser(framed=True, kvy=self.kvy, tvy=self.tvy, vry=self.vry, version=Vrsn_1_0)

    def restart(self):
        lmdb.FAULT.disarm()
        self.reger.env.close()
        self.db.env.close()
        self.opened()

    def close(self):
        lmdb.FAULT.disarm()
        self.reger.close(clear=True)
        self.db.close(clear=True)

    # -- messages
    def message(self, st):
        w = self.w
        gv = Vrsn_2_0 if st.get("gv") == 2 else Vrsn_1_0
        if st["e"] == "kel":
            ser = w.kser[st["k"]]
            sg = [signer(ser._key).sign(ser.raw, index=0)]
            return eventing.messagize(ser, sigers=sg, framed=True, gvrsn=gv), {}
        if st["e"] == "tel":
            x = st["x"]
            ser = w.tser[x]
            wigs, recs = [], []
            for b, j, good in st["wg"]:
                g = signer(b, False).sign(ser.raw if good else ser.raw + b"x", index=j)
                wigs.append(indexing.Siger(raw=g.raw, code=g.code, index=j))
                recs.append({"w": b if good else 0, "i": j})
            k, s = st["cp"]
            bonds = None
            if k:
                d = w.kser[k].said if k > 0 else junkdig(7)
                bonds = SealSource(s=coring.Number(num=s, code=coring.NumDex.Huge), d=coring.Diger(qb64=d))
            msg = eventing.messagize(ser, wigers=wigs or None, bonds=bonds, framed=True, gvrsn=gv,
                                     genusify=gv.major > 1) if wigs or bonds else bytearray(ser.raw)
            return msg, dict(x=x, cp={"k": k, "s": s}, wg=recs, loc=st["loc"])
        if st["e"] == "cred":
            c = st["c"]
            ser = w.cser[c]
            bond = SealEvent(i=coring.Prefixer(qb64=ser.said), s=coring.Number(num=0, code=coring.NumDex.Huge),
                             d=coring.Diger(qb64=ser.said))
            return eventing.messagize(ser, bonds=bond, framed=True, gvrsn=gv), dict(c=c)
        raise ValueError(st)

    def junk(self, st):
        """A message altered on its way."""
        w = self.w
        if st["how"] == "cred":
            ser = w.cser[1 + st["n"] % len(w.cser)]
            raw = ser.raw.replace(b'"z":"', b'"z":"0', 1).replace(b'","z"', b'","z"')
            at = ser.raw.index(b'"z":"') + 5
            raw = bytearray(ser.raw)
            raw[at] = ord("0") if raw[at] != ord("0") else ord("1")
            bond = SealEvent(i=coring.Prefixer(qb64=ser.said), s=coring.Number(num=0, code=coring.NumDex.Huge),
                             d=coring.Diger(qb64=ser.said))
        else:
            x = 1 + st["n"] % len(w.tser)
            ser = w.tser[x]
            raw = bytearray(ser.raw)
            at = ser.raw.index(b'"dt":"') + 10 if b'"dt"' in ser.raw else ser.raw.index(b'"d":"') + 20
            raw[at] = ord("7") if raw[at] != ord("7") else ord("8")
            ks = w.anchors.get(x) or [1]
            bond = SealSource(s=coring.Number(num=w.kev[ks[0] - 1]["s"], code=coring.NumDex.Huge),
                              d=coring.Diger(qb64=w.kser[ks[0]].said))
        msg = eventing.messagize(ser, bonds=bond, framed=True, gvrsn=Vrsn_1_0)
        return raw + msg[len(ser.raw):]

    # -- observation
    def state(self, t):
        w = self.w
        return {"live": True, "ii": next((p for p, q in w.pres.items() if q == t["ii"]), -1), "s": int(t["s"], 16),
                "d": w.bysaid.get(t["d"], -1), "t": t["et"], "b": [self.bak(b) for b in t["b"]], "bt": int(t["bt"], 16),
                "nb": "NB" in t["c"]}

    def bak(self, q):
        if not hasattr(self.w, "bakids"):
            self.w.bakids = {self.w.baker(b): b for b in range(900, 925)}
        return self.w.bakids.get(q, -1)

    def regstate(self, g):
        if self.w.rid[g] not in self.reger.tevers:
            return NONE
        t = self.reger.tevers[self.w.rid[g]]
        return self.state(dict(ii=t.pre, s=f"{t.sn:x}", d=t.serder.said, et=t.ilk, b=list(t.baks), bt=f"{t.toad:x}",
                               c=["NB"] if t.noBackers else []))

    def record(self, g):
        r = self.reger.states.get(keys=self.w.rid[g])
        return NONE if r is None else self.state(r._asdict())

    def vc(self, c):
        w = self.w
        rid = w.rid[w.cr[c - 1]["r"]]
        if rid not in self.reger.tevers:
            return NONE
        s = self.reger.tevers[rid].vcState(w.cser[c].said)
        if s is None:
            return NONE
        return {"live": True, "s": int(s.s, 16), "d": w.bysaid.get(s.d, -1), "t": s.et,
                "r": next((g for g, q in w.rid.items() if q == s.ri), -1)}

    def tlog(self, j):
        w = self.w
        pre = w.rid[j] if j <= w.nr else w.cser[j - w.nr].said
        out = []
        for _, on, d in self.reger.tels.getAllItemIter(keys=pre):
            out += [-2] * (on - len(out))
            out.append(w.bysaid.get(d, -1))
        return out

    def klog(self, p):
        if self.w.pres[p] not in self.db.kevers:
            return []
        out = []
        for sn in range(self.db.kevers[self.w.pres[p]].sn + 1):
            d = self.db.kels.getLast(keys=self.w.pres[p], on=sn)
            out.append(self.w.kbysaid.get(d, -1))
        return out

    def index(self, db, keyof):
        """Pairs of an index of saved credentials."""
        out = []
        for keys, saider in db.getTopItemIter():
            out.append([keyof(keys[0]), self.w.cbysaid.get(saider.qb64, -1)])
        return out

    def observe(self, line):
        w = self.w
        new = {}
        for p in w.pres:
            new["kl", p] = self.klog(p)
        for j in range(1, w.nr + len(w.cr) + 1):
            new["tl", j] = self.tlog(j)
        for g in range(1, w.nr + 1):
            new["reg", g] = self.regstate(g)
            new["sr", g] = self.record(g)
        for c in range(1, len(w.cr) + 1):
            new["vc", c] = self.vc(c)
        for kind in ("kl", "tl", "reg", "sr", "vc"):
            blank = [] if kind in ("kl", "tl") else NONE
            line[kind] = [{"k": k, "v": v} for (kd, k), v in new.items()
                          if kd == kind and self.seen.get((kd, k), blank) != v]
        self.seen = new
        aid = {q: p for p, q in w.pres.items()}
        sid = {schema(n).said: n for n in range(1, NSCHEMA + 1)}
        line["sv"] = [w.cbysaid.get(s.qb64, -1) for _, s in self.reger.saved.getTopItemIter()]
        line["iss"] = self.index(self.reger.issus, lambda k: aid.get(k, -1))
        line["sub"] = self.index(self.reger.subjs, lambda k: aid.get(k, -1))
        line["scm"] = self.index(self.reger.schms, lambda k: sid.get(k, -1))
        return line

    # -- acting
    def settle(self, run):
        quiet = passes = 0
        last = None
        while quiet < 4:
            passes += 1
            if passes > 60:
                raise RuntimeError("escrow processing goes on without end")
            run()
            now = [self.tlog(j) for j in range(1, self.w.nr + len(self.w.cr) + 1)], \
                  [s.qb64 for _, s in self.reger.saved.getTopItemIter()]
            quiet = quiet + 1 if now == last else 0
            last = now

    def act(self, st):
        e = st["e"]
        if e == "tesc":
            tvys = [getattr(self, n) for n in st.get("by", ("tvy", "ltvy"))]
            self.settle(lambda: [t.processEscrows() for t in tvys])
            return {"e": "tesc"}
        if e == "cesc":
            self.settle(self.vry.processEscrows)
            return {"e": "cesc"}
        if e == "sch":
            s = schema(st["c"])
            self.db.schema.pin(keys=s.said, val=s)
            return {"e": "sch", "c": st["c"]}
        if e == "junk":
            self.psr.parse(ims=bytearray(self.junk(st)), version=Vrsn_1_0)
            return {"e": "junk"}
        msg, recs = self.message(st)
        loc = st.get("loc", False)
        self.psr.parse(ims=bytearray(msg), tvy=self.ltvy if loc else self.tvy, local=loc,
                       version=Vrsn_2_0 if st.get("gv") == 2 else Vrsn_1_0)
        return {"e": e, **recs}

    def step(self, st, out):
        with guard(90):
            self._step(st, out)

    def _step(self, st, out):
        if st["e"] == "restart":
            self.restart()
            out.append(self.observe({"e": "restart"}))
        elif st["e"] == "clone":
            out.append(self.cloned(st))
        elif st["e"] == "crash":
            lmdb.FAULT.arm(st["k"])
            try:
                line = self.act(st["st"])
            except lmdb.Crash:
                self.restart()
                inner = st["st"]
                line = {"e": "crash", "x": 0, "c": 0, "cp": {"k": 0, "s": 0}, "wg": [], "loc": False}
                if inner["e"] in ("tel", "cred"):
                    line.update(self.message(inner)[1])
                out.append(self.observe(line))
                return
            finally:
                lmdb.FAULT.disarm()
            out.append(self.observe(line))
        else:
            out.append(self.observe(self.act(st)))

    def cloned(self, st):
        """Feed what this one replays to another."""
        gv = Vrsn_2_0 if st.get("gv") == 2 else Vrsn_1_0
        b = Validator(self.w)
        b.reger.registries.clear()
        try:
            for p in self.w.pres.values():
                for msg in self.db.clonePreIter(pre=p, gvrsn=gv):
                    b.psr.parse(ims=bytearray(msg), version=gv)
            logs = [(j, self.w.rid[j] if j <= self.w.nr else self.w.cser[j - self.w.nr].said)
                    for j in range(1, self.w.nr + len(self.w.cr) + 1)]
            for j, pre in logs:
                for msg in self.reger.clonePreIter(pre=pre, gvrsn=gv):
                    b.psr.parse(ims=bytearray(msg), version=gv)
            b.settle(b.tvy.processEscrows)
            n = len(logs)
            return {"e": "clone", "tl": [b.tlog(j) for j in range(1, n + 1)],
                    "reg": [b.regstate(g) for g in range(1, self.w.nr + 1)],
                    "vc": [b.vc(c) for c in range(1, len(self.w.cr) + 1)]}
        finally:
            b.close()

    def attached(self, out):
        w = self.w
        for j in range(1, w.nr + len(w.cr) + 1):
            for x in self.tlog(j):
                if x < 1:
                    continue
                s = w.tser[x]
                num, dig = self.reger.ancs.get(keys=(s.pre, s.said)) or (None, None)
                wg = []
                for g in self.reger.tibs.get(keys=(s.pre, s.said)) or []:
                    who = next((b for b in range(901, 925) if signer(b, False).verfer.verify(g.raw, s.raw)), 0)
                    wg.append({"w": who, "i": g.index})
                out.append({"e": "att", "x": x, "cp": {"k": w.kbysaid.get(dig.qb64, -1) if dig else 0, "s": num.num if num else 0},
                            "wg": wg, "loc": w.tev[x - 1]["r"] in w.own})


def record(world, steps, out, att=True, home=None):
    out.append(world.table())
    v = Validator(world, home=home)
    try:
        for st in steps:
            v.step(st, out)
        if att:
            v.attached(out)
    finally:
        v.close()


def commits(world, steps, home=None):
    v = Validator(world, home=home)
    n = []
    try:
        for st in steps:
            a = lmdb.FAULT.commits
            v.act(st)
            n.append(lmdb.FAULT.commits - a)
    finally:
        v.close()
    return n


def with_restarts(steps, rng, p=.2):
    out = []
    for st in steps:
        out.append(st)
        if rng.random() < p:
            out.append(dict(e="restart"))
    return out


def with_crash(steps, counts, rng):
    able = [j for j, n in enumerate(counts) if n and steps[j]["e"] in ("tel", "cred", "tesc", "cesc")]
    if not able:
        return steps
    j = rng.choice(able)
    return steps[:j] + [dict(e="crash", st=steps[j], k=rng.randrange(counts[j]))] + steps + [tesc(rng), dict(e="cesc")]
