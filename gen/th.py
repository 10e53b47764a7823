"""More helpers: registries and credentials."""
from types import SimpleNamespace
from kh import *
from keri.core import scheming
from keri.core.coring import Seqner, MtrDex
from keri.kering import Kinds
from keri.core.structing import SealEvent
from keri.vc import proving
from keri.vdr import eventing as vdr
from keri.vdr import verifying

VK = dict(version=Vrsn_1_0)
def dig(n): return Diger(ser=b"junk%d" % n).qb64
def vcp(ii, baks=(), toad=None, nb=None, n=0):
    nb = not baks if nb is None else nb
    return vdr.incept(ii, baks=W(*baks), toad=toad, cnfg=[TraitDex.NoBackers] if nb else [],
                      nonce=dig(n), code=MtrDex.Blake3_256, **VK)
def vrt(reg, prior, sn, baks, cuts=(), adds=(), toad=None):
    return vdr.rotate(reg.pre, prior.said, sn=sn, baks=W(*baks), cuts=W(*cuts), adds=W(*adds), toad=toad, **VK)
def iss(cred, reg, dt="2026-01-01T00:00:00.000000+00:00"): return vdr.issue(cred, reg.pre, dt=dt, **VK)
def rev(cred, reg, prior, dt="2026-01-02T00:00:00.000000+00:00"):
    return vdr.revoke(cred, reg.pre, prior.said, dt=dt, **VK)
def bis(cred, reg, at, dt="2026-01-01T00:00:00.000000+00:00"):
    return vdr.backerIssue(cred, reg.pre, at.sn, at.said, dt=dt, **VK)
def brv(cred, reg, at, prior, dt="2026-01-02T00:00:00.000000+00:00"):
    return vdr.backerRevoke(cred, reg.pre, at.sn, at.said, prior.said, dt=dt, **VK)
SCH = {}
def schema(n):
    sad = {"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "title": f"S{n}", "type": "object",
           "properties": {"a": {"type": "object", "required": [f"p{n}"], "properties": {f"p{n}": {"type": "string"}}}},
           "required": ["a"]}
    _, sad = coring.Saider.saidify(sad=sad, code=MtrDex.Blake3_256, kind=Kinds.json, label="$id")
    return scheming.Schemer(sed=sad)
def cred(issuer, reg, sc=1, to=None, edge=None, has=(1,), n=0):
    data = {f"p{k}": "x" for k in has}; data["dt"] = "2026-01-01T00:00:00.000000+00:00"; data["z"] = str(n)
    if edge is not None and not isinstance(edge, list):
        _, edge = coring.Saider.saidify(sad=dict(d="", **edge), label="d")
    return proving.credential(schema=schema(sc).said, issuer=issuer, data=data, recipient=to, status=reg.pre, source=edge, version=Vrsn_1_0)

class TVal(Val):
    """A validator of registries and credentials."""
    def open(s):
        super().open()
        kw = dict(temp=False, headDirPath=HOME) if s.keep else dict(temp=True)
        s.reger = vdr.Reger(name=s.name + "r", db=s.db, reopen=True, **kw)
        s.tvy = vdr.Tevery(reger=s.reger, db=s.db, local=False, lax=False)
        s.ltvy = vdr.Tevery(reger=s.reger, db=s.db, local=True, lax=False)
        s.vry = verifying.Verifier(hby=SimpleNamespace(db=s.db, inited=True, kvy=s.kvy, version=Vrsn_1_0, name=s.name, temp=True), reger=s.reger)
        for n in (1, 2, 3): s.db.schema.pin(keys=schema(n).said, val=schema(n))
        s.heads = getattr(s, "heads", {})
    def restart(s):
        s.reger.env.close(); super().restart()
    def aid(s, k):
        """an identifier with key k"""
        e = icp([k], [k + 1]); assert s.give(e, sig(e, k)) == "ok"
        s.heads[e.pre] = (e, k)
        return e.pre
    def anchor(s, pre, *evs, seals=None, give=True):
        h, k = s.heads[pre]
        a = ixn(pre, h.sn + 1, h.said, seals if seals is not None else [seal(e) for e in evs])
        s.heads[pre] = (a, k)
        if give: s.kel(a)
        return a
    def kel(s, a):
        assert s.give(a, sig(a, s.heads[a.pre][1])) == "ok"
    def tel(s, e, a=None, wigs=(), tvy=None, sn=None):
        """deliver e, anchored by key event a"""
        try:
            (tvy or s.tvy).processEvent(serder=e, seqner=Seqner(sn=a.sn if sn is None else sn) if a else None,
                                        saider=Diger(qb64=a.said) if a else None, wigers=list(wigs))
            return "ok"
        except (ValidationError, ValueError) as ex:
            return type(ex).__name__
    def do(s, pre, e, wigs=()):
        a = s.anchor(pre, e)
        return s.tel(e, a, wigs)
    def esc(s):
        s.tvy.processEscrows(); s.ltvy.processEscrows()
    def log(s, pre):
        return [d for _, _, d in s.reger.tels.getAllItemIter(keys=pre)]
    def inlog(s, e): return e.said in s.log(e.pre)
    def acdc(s, c, at):
        try:
            s.vry.processCredential(c, coring.Prefixer(qb64=at.pre), Seqner(sn=at.sn), coring.Saider(qb64=at.said))
            return "ok"
        except Exception as ex:
            return type(ex).__name__
    def saved(s, c): return s.reger.saved.get(keys=c.said) is not None
