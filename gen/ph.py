"""Helpers of the demonstrations about streams."""
from kh import *
from base64 import urlsafe_b64decode
from keri.core import eventing, parsing
from keri.core.coring import Diger, Number, Prefixer, Kinds
from keri.core.counting import Counter
from keri.core.signing import Signer
from keri.core.structing import SealEvent, SealSource
from keri.kering import Vrsn_1_0, Vrsn_2_0
V = {1: Vrsn_1_0, 2: Vrsn_2_0}
def key(n, t=True): return Signer(raw=Diger(ser=b"ph %d" % n).raw, transferable=t)
def dig(n): return Diger(ser=b"d %d" % n)
def icp(n=0, v=1, kind=Kinds.json):
    return eventing.incept(keys=[key(n).verfer.qb64], ndigs=[Diger(ser=key(n + 1).verfer.qb64b).qb64], code="E", version=V[v], kind=kind)
def sig(serder, n=0): return key(n).sign(serder.raw, index=0)
def wire(serder, gv=1, **kw): return bytes(eventing.messagize(serder, gvrsn=V[gv], **kw))
def gvc(v): return bytes(Counter.makeGVC(version=V[v]))
def b2(x): return urlsafe_b64decode(bytes(x))
class Sink:
    def __init__(s): s.got = []
    def __getattr__(s, name):
        def f(kwa=None, **kw): s.got.append((name, dict(kwa or kw)))
        return f
def parse(chunks, v=1, **kw):
    s = Sink()
    p = parsing.Parser(framed=False, version=V[v], kvy=s, tvy=s, exc=s, rvy=s, vry=s)
    go = p.parsator()
    for c in chunks:
        p.ims.extend(c)
        for _ in range(6): next(go)
    for _ in range(30): next(go)
    go.close()
    return s.got, len(p.ims)
def saids(got, f="processEvent"): return [kw["serder"].said for n, kw in got if n == f]
