"""Helpers of the demonstrations about replies."""
from kh import *
from keri.core import routing
import datetime
DT = "2026-01-0%dT00:00:00.000000+00:00"
class RVal(Val):
    def __init__(s, lax=True, local=False, **kw):
        s.lax = lax
        super().__init__(local=local, **kw)
    def open(s):
        super().open()
        rtr = routing.Router()
        s.rvy = routing.Revery(db=s.db, rtr=rtr, lax=s.lax, local=s.local)
        s.kvy = eventing.Kevery(db=s.db, lax=True, local=False, rvy=s.rvy)
        s.kvy.registerReplyRoutes(router=rtr)
    def give(s, e, sigs, **kw):
        return super().give(e, sigs, local=False)
    def reply(s, r, cg=(), tg=()):
        try:
            s.rvy.processReply(serder=r, cigars=list(cg), tsgs=[tuple(t) for t in tg]); return "ok"
        except Exception as ex:
            return type(ex).__name__
    def pas(s): s.rvy.processEscrowReply()
def now(mins=0):
    return (datetime.datetime.now(datetime.timezone.utc) + datetime.timedelta(minutes=mins)).isoformat(timespec="microseconds")
def rpy(route, data, dts): return eventing.reply(route=route, data=data, stamp=dts, version=Vrsn_1_0, kind="JSON")
def loc(eid, url, dts, scheme="http"): return rpy("/loc/scheme", dict(eid=eid, scheme=scheme, url=url), dts)
def end(cid, eid, dts, cut=False, role="agent"):
    return rpy("/end/role/cut" if cut else "/end/role/add", dict(cid=cid, role=role, eid=eid), dts)
def couple(r, w): return [S(w, False).sign(r.raw)]
def tg(r, e, *ks): return (Prefixer(qb64=e.pre), Number(num=e.sn), Diger(qb64=e.said), sig(r, *ks))
