V="src/keri/core/eventing.py"
R="src/keri/core/routing.py"
P="from rh import *\n"
def sd(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=P+demo, kh=True, extra=["rh.py"])
SEEDS=[
 sd("R01","C30",[(R,'''                if dater.datetime <= odater.datetime:
                    logger.trace(
''','''                if dater.datetime < odater.datetime:
                    logger.trace(
''')],"two different replies of a nontransferable identifier with the very same date-time",
"a reply no later than the one on record replaces it",'''
w=W(1)[0]; v=RVal(); a=loc(w,"http://a/",DT%1); b=loc(w,"http://b/",DT%1)
assert v.reply(a,couple(a,1))=="ok"
v.reply(b,couple(b,1)); assert v.db.locs.get(keys=(w,"http")).url=="http://a/"
'''),
 sd("R02","C30",[(R,'''                    if (snr.sn < snumber.sn) or (
''','''                    if (snr.sn < snumber.sn) and (
''')],"a reply accepted with old keys, then with the new ones too, then a later dated one with the old keys",
"old keys replace what the present keys put on record",'''
v=RVal(); e=icp([1],[2]); f=rot(e.pre,1,e.said,[2],[3]); v.give(e,sig(e,1)); v.give(f,sig(f,2))
a=loc(e.pre,"http://a/",DT%1); b=loc(e.pre,"http://b/",DT%2)
assert v.reply(a,tg=[tg(a,e,1)])=="ok" and v.reply(a,tg=[tg(a,f,2)])=="ok"
v.reply(b,tg=[tg(b,e,1)]); assert v.db.locs.get(keys=(e.pre,"http")).url=="http://a/"
'''),
 sd("R03","C30",[(R,'''            sserder = self.db.evts.get(keys=(spre, bytes(sdig)))
            # assumes db ensures that sserder must not be none because sdig was in KE
''','''            if sdiger.qb64 in self.db.kels.get(keys=spre, on=snumber.sn):
                sdig = sdiger.qb64b  # the one of several at sn that signer refers to
            sserder = self.db.evts.get(keys=(spre, bytes(sdig)))
            # assumes db ensures that sserder must not be none because sdig was in KE
''')],"a reply by reference to an event that a recovery rotation superseded, signed with the old keys",
"events superseded by recovery still serve to sign replies",'''
v=RVal(); e=icp([1],[2]); x=ixn(e.pre,1,e.said); f=rot(e.pre,1,e.said,[2],[3])
v.give(e,sig(e,1)); v.give(x,sig(x,1)); v.give(f,sig(f,2)); assert v.tip(e.pre)==f.said
from keri.db import dbing
a=loc(e.pre,"http://a/",DT%1)
# as an interaction event has no keys, only a superseded delegated rotation can sign
d=icp([11],[12]); g=dip([13],[14],d.pre); s0=ixn(d.pre,1,d.said,[seal(g)])
r1=drt(g.pre,1,g.said,[14],[15]); s1=ixn(d.pre,2,s0.said,[seal(r1)])
r2=drt(g.pre,1,g.said,[14],[16]); s2=rot(d.pre,2,s0.said,[12],[17],data=[seal(r2)])
for m,k,src in ((d,11,None),(s0,11,None),(g,13,s0),(s1,11,None),(r1,14,s1),(s2,12,None),(r2,14,s2)):
    v.kvy.processEvent(serder=m,sigers=sig(m,k),wigers=[],delsner=Number(num=src.sn) if src else None,delsger=Diger(qb64=src.said) if src else None,local=False)
assert v.tip(g.pre)==r2.said
a=loc(g.pre,"http://a/",DT%1)
v.reply(a,tg=[tg(a,r1,14)]); assert v.db.locs.get(keys=(g.pre,"http")) is None
'''),
 sd("R04","C30",[(V,'''        if locer := self.db.locs.get(keys=keys):  # preexisting record
            locer.url = url  # update preexisting record
''','''        if locer := self.db.locs.get(keys=keys):  # preexisting record
            locer.url = url or locer.url  # update preexisting record
''')],"a later location reply with an empty url, which withdraws the endpoint",
"the location on record is not what the accepted reply says",'''
w=W(1)[0]; v=RVal(); a=loc(w,"http://a/",DT%1); b=loc(w,"",DT%2)
assert v.reply(a,couple(a,1))=="ok" and v.reply(b,couple(b,1))=="ok"
assert v.db.locs.get(keys=(w,"http")).url==""
'''),
 sd("R05","C30",[(R,'''                if dater.datetime <= odater.datetime:
                    logger.trace(
''','''                if dater.dts <= odater.dts:
                    logger.trace(
''')],"dates in different time zones whose texts order otherwise than the instants",
"an earlier reply replaces a later one",'''
w=W(1)[0]; v=RVal()
a=loc(w,"http://a/","2026-01-01T12:00:00.000000+00:00"); b=loc(w,"http://b/","2026-01-01T13:00:00.000000+05:30")
assert v.reply(a,couple(a,1))=="ok"
v.reply(b,couple(b,1)); assert v.db.locs.get(keys=(w,"http")).url=="http://a/"
'''),
 sd("R06","C31",[(R,'''                    if (helping.nowUTC() - dater.datetime) > datetime.timedelta(
''','''                    if abs(helping.nowUTC() - dater.datetime) > datetime.timedelta(
''')],"a reply dated beyond an hour ahead that waits for its signer's event",
"a pending reply that is not past its time-out is dropped",'''
v=RVal(); e=icp([1],[2]); a=loc(e.pre,"http://a/",now(600))
v.reply(a,tg=[tg(a,e,1)]); v.pas(); v.give(e,sig(e,1)); v.pas()
assert v.db.locs.get(keys=(e.pre,"http")).url=="http://a/"
'''),
 sd("R07","C31",[(R,'''        self.db.tsgs.put(keys=quadkeys, vals=sigers)
        self.db.rpes.put(keys=(route,), vals=[saider])
''','''        self.db.tsgs.pin(keys=quadkeys, vals=sigers)
        self.db.rpes.put(keys=(route,), vals=[saider])
''')],"a multi-signature reply that comes in parts before its signer's event is known",
"only the last part of the signatures is kept",'''
v=RVal(); e=icp([1,2],[3,4],isith="2",nsith="2")
a=loc(e.pre,"http://a/",now())
v.reply(a,tg=[tg(a,e,1)]); v.reply(a,tg=[tg(a,e,(2,1))])
v.give(e,sig(e,1,2)); v.pas()
assert v.db.locs.get(keys=(e.pre,"http")).url=="http://a/"
'''),
 sd("R08","C31",[(R,'''        self.db.rpes.put(keys=(route,), vals=[saider])
''','''        self.db.rpes.pin(keys=(route,), vals=[saider])
''')],"two replies of one route waiting at once","all but the last waiting reply of a route are forgotten",'''
v=RVal(); e=icp([1],[2]); f=icp([3],[4]); a=loc(e.pre,"http://a/",now()); b=loc(f.pre,"http://b/",now())
v.reply(a,tg=[tg(a,e,1)]); v.reply(b,tg=[tg(b,f,3)])
v.give(e,sig(e,1)); v.give(f,sig(f,3)); v.pas()
assert v.db.locs.get(keys=(e.pre,"http")).url=="http://a/" and v.db.locs.get(keys=(f.pre,"http")).url=="http://b/"
'''),
 sd("R09","C45",[(V,'''        if ldig is not None:  # escrow because event does not yet exist in database
            ldig = ldig.encode("utf-8")
''','''        if ldig is not None and osaider is None:
            ldig = ldig.encode("utf-8")
''')],"a second notice of the same source, which contradicts the log at the same number",
"only the first notice of a source is compared with the log",'''
v=RVal(); e=icp([1],[2]); v.give(e,sig(e,1)); w=W(5)[0]
from keri.kering import Kinds
def ksn(ev,dts):
    k=eventing.state(pre=ev.pre,sn=ev.sn,pig="",dig=ev.said,fn=0,eilk="icp",keys=K(1),sith="1",version=Vrsn_1_0,kind="JSON",ndigs=N(2),nsith="1",toad=0,wits=[],eevt=eventing.StateEstEvent(s="0",d=ev.said,br=[],ba=[]),stamp=dts)
    return rpy("/ksn/"+w,k._asdict(),dts)
a=ksn(e,DT%1); g=icp([1],[7]); k=dict(a.ked["a"]); k["d"]=g.said; k["dt"]=DT%2
b=rpy("/ksn/"+w,k,DT%2)
assert v.reply(a,couple(a,5))=="ok"; assert v.db.knas.get(keys=(e.pre,w)).qb64==e.said
v.reply(b,couple(b,5)); assert v.db.knas.get(keys=(e.pre,w)).qb64==e.said
'''),
 sd("R10","C45",[(V,'''        if not self.lax:
            if aid != ksr.i and \\
                    aid not in baks and \\
''','''        if not self.lax:
            if pre in self.kevers:
                baks = self.kevers[pre].wits
            if aid != ksr.i and \\
                    aid not in baks and \\
''')],"a notice from a backer that the subject rotated in by an event not yet held",
"a notice by a backer it names is refused",'''
v=RVal(); v.kvy.lax=False; e=icp([1],[2]); v.give(e,sig(e,1)); w=W(5)[0]
f=rot(e.pre,1,e.said,[2],[3],adds=[w],toad=1)
k=eventing.state(pre=e.pre,sn=1,pig=e.said,dig=f.said,fn=1,eilk="rot",keys=K(2),sith="1",version=Vrsn_1_0,kind="JSON",ndigs=N(3),nsith="1",toad=1,wits=[w],eevt=eventing.StateEstEvent(s="1",d=f.said,br=[],ba=[w]),stamp=DT%1)
a=rpy("/ksn/"+w,k._asdict(),DT%1)
v.reply(a,couple(a,5)); assert v.db.knas.get(keys=(e.pre,w)).qb64==f.said
'''),
 sd("R11","C30",[(R,'''                if not self.local:  # own sig when not local so ignore
                    logger.debug(
                        "Revery: skipped own attachment on nonlocal reply said=%s",
''','''                if not self.local and odater is None:  # own sig when not local so ignore
                    logger.debug(
                        "Revery: skipped own attachment on nonlocal reply said=%s",
''')],"a later reply of an own identifier from outside, when one is on record",
"outsiders replace what is on record of own identifiers",'''
e=icp([1],[2]); v=RVal(lax=False,local=True,own=[e.pre]); v.kvy.processEvent(serder=e,sigers=sig(e,1),wigers=[],local=True)
a=loc(e.pre,"http://a/",DT%1); b=loc(e.pre,"http://b/",DT%2)
assert v.reply(a,tg=[tg(a,e,1)])=="ok"
v.rvy.local=False; assert v.db.locs.get(keys=(e.pre,"http")).url=="http://a/"
v.reply(b,tg=[tg(b,e,1)]); assert v.db.locs.get(keys=(e.pre,"http")).url=="http://a/"
'''),
]
