"""Small helpers of the demonstrations: key events on the real library."""
import atexit, os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "shims"))
import keri_env  # noqa
import keri
from keri.core import coring, eventing, indexing, parsing, serdering, signing, structing
from keri.core.coring import Diger, Number, Verfer, Prefixer
from keri.db import basing
from keri.kering import ValidationError, Vrsn_1_0, Vrsn_2_0, TraitDex

HOME = tempfile.mkdtemp(prefix="kh-")
atexit.register(shutil.rmtree, HOME, True)
KW = dict(version=Vrsn_1_0, code="E", kind="JSON")

def S(k, t=True):
    return signing.Signer(raw=Diger(ser=b"key %d" % k).raw, transferable=t)
def K(*ks): return [S(k).verfer.qb64 for k in ks]
def W(*ks): return [S(k, False).verfer.qb64 for k in ks]
def N(*ks): return [Diger(ser=S(k).verfer.qb64b).qb64 for k in ks]
def icp(ks, ns, **kwa): return eventing.incept(keys=K(*ks), ndigs=N(*ns), **{**KW, **kwa})
def dip(ks, ns, delpre, **kwa):
    return eventing.delcept(keys=K(*ks), ndigs=N(*ns), delpre=delpre, **{**KW, **kwa})
def rot(p, sn, prior, ks, ns, **kwa):
    return eventing.rotate(pre=p, keys=K(*ks), dig=prior, sn=sn, ndigs=N(*ns), version=Vrsn_1_0, kind="JSON", **kwa)
def drt(p, sn, prior, ks, ns, **kwa):
    return rot(p, sn, prior, ks, ns, ilk="drt", **kwa)
def ixn(p, sn, prior, data=()):
    return eventing.interact(pre=p, dig=prior, sn=sn, data=list(data), version=Vrsn_1_0, kind="JSON")
def rct(e): return eventing.receipt(pre=e.pre, sn=e.sn, said=e.said, version=Vrsn_1_0, kind="JSON")
def seal(e): return dict(i=e.pre, s=e.snh, d=e.said)
def sig(e, *ks):
    """signatures on e: k is key number k at its place; (k, index) or (k, index, ondex)"""
    out = []
    for j, k in enumerate(ks):
        k = k if isinstance(k, tuple) else (k, j)
        kw = dict(index=k[1])
        if len(k) > 2:
            kw.update(ondex=k[2]) if k[2] is not None else kw.update(only=True)
        out.append(S(k[0]).sign(e.raw, **kw))
    return out
def wig(e, *ws):
    return [S(w, False).sign(e.raw, index=i) for w, i in ws]

class Val:
    n = 0
    def __init__(s, keep=False, local=False, own=()):
        Val.n += 1
        s.keep, s.own, s.local = keep, own, local
        s.name = f"kh{os.getpid()}x{Val.n}"
        s.open()
    def open(s):
        if s.keep:
            s.db = basing.Baser(name=s.name, temp=False, headDirPath=HOME, reopen=True)
            if s.db.version is None: s.db.version = keri.__version__
            s.db.reload()
        else:
            s.db = basing.Baser(name=s.name, temp=True, reopen=True)
        for p in s.own: s.db.prefixes.add(p)
        s.kvy = eventing.Kevery(db=s.db, lax=False, local=s.local)
        s.psr = parsing.Parser(framed=True, kvy=s.kvy)
    def restart(s):
        s.db.env.close(); s.open()
    def give(s, e, sigs, wigs=(), src=None, local=None):
        try:
            s.kvy.processEvent(serder=e, sigers=list(sigs), wigers=list(wigs),
                               delsner=Number(num=src.sn) if src else None,
                               delsger=Diger(qb64=src.said) if src else None,
                               local=s.local if local is None else local)
            return "ok"
        except (ValidationError, ValueError) as ex:
            return type(ex).__name__
    def esc(s): s.kvy.processEscrows()
    def tip(s, pre):
        k = s.db.kevers.get(pre) if hasattr(s.db.kevers, "get") else None
        return None if pre not in s.db.kevers else s.db.kevers[pre].serder.said
    def has(s, e):
        return e.said in s.db.kels.get(keys=e.pre, on=e.sn)
