E="src/keri/vdr/eventing.py"
V="src/keri/vdr/verifying.py"
P="from th import *\n"
def sd(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=P+demo, kh=True, extra=["th.py"])
SEEDS=[
 sd("T01","C39",[(E,'''        baks = list((witset - cutset) | addset)
''','''        baks = list(addset | (witset - cutset))
''')],"a registry rotation that adds a backer and keeps another",
"the backers in force are in another order, so indexed backer signatures are taken for those of another",'''
v=TVal(); p=v.aid(1); r=vcp(p,[21,22],1); v.do(p,r,wig(r,(21,0)))
t=vrt(r,r,1,[21,22],cuts=[21],adds=[23],toad=2)
assert v.do(p,t,wig(t,(22,0),(23,1)))=="ok" and v.log(r.pre)==[r.said,t.said]
assert v.reger.states.get(keys=r.pre).b==W(22,23)
'''),
 sd("T02","C39",[(E,'''            toad, baks, cuts, adds = self.rotate(serder, sn=sn)

            bigers = self.valAnchorBigs(serder=serder,
                                        seqner=seqner,
                                        saider=saider,
                                        bigers=bigers,
                                        toad=toad,
''','''            toad, baks, cuts, adds = self.rotate(serder, sn=sn)

            bigers = self.valAnchorBigs(serder=serder,
                                        seqner=seqner,
                                        saider=saider,
                                        bigers=bigers,
                                        toad=min(toad, self.toad),
''')],"a registry rotation that raises the backer threshold, delivered with the signatures of the old threshold",
"a rotation is accepted with fewer backer signatures than it requires",'''
v=TVal(); p=v.aid(1); r=vcp(p,[21,22],1); v.do(p,r,wig(r,(21,0)))
t=vrt(r,r,1,[21,22],toad=2)
v.do(p,t,wig(t,(22,1))); assert v.log(r.pre)==[r.said]
'''),
 sd("T03","C40",[(E,'''                sno = 0 if esn is None else esn + 1
''','''                sno = 0 if esn is None else min(esn + 1, 1)
''')],"a second, different revocation of a credential already revoked",
"a revocation is replaced by another",'''
v=TVal(); p=v.aid(1); r=vcp(p); v.do(p,r); c=cred(p,r)
i=iss(c.said,r); v.do(p,i); a=rev(c.said,r,i); b=rev(c.said,r,i,dt="2026-02-02T00:00:00.000000+00:00")
assert v.do(p,a)=="ok"; v.do(p,b); assert v.log(c.said)==[i.said,a.said]
'''),
 sd("T04","C41",[(E,'''        if eserder.said != saider.qb64:
            return False
''','''        if saider is None:
            return False
''')],"an event delivered with the sequence number of its anchor but another digest",
"the digest of the anchoring key event is not checked, and a wrong one is stored",'''
v=TVal(); p=v.aid(1); r=vcp(p); a=v.anchor(p,r)
v.tel(r,v.heads[p][0],sn=a.sn) if False else None
class A: sn=a.sn; said=dig(9)
v.tel(r,A); assert v.log(r.pre)==[]
assert v.tel(r,a)=="ok"
'''),
 sd("T05","C41",[(E,'''            # check if fully anchored
            if not self.verifyAnchor(serder=serder, seqner=seqner, saider=saider):
                self.escrowALEvent(serder=serder, seqner=seqner, saider=saider)
                raise MissingAnchorError("Failure verify event = {} "
                                         "".format(serder.ked,
                                                   ))
''','''            # check if fully anchored, own registries anchor afterwards
            if not self.local and not self.verifyAnchor(serder=serder, seqner=seqner, saider=saider):
                self.escrowALEvent(serder=serder, seqner=seqner, saider=saider)
                raise MissingAnchorError("Failure verify event = {} "
                                         "".format(serder.ked,
                                                   ))
''')],"an issuance in an own registry processed before its anchoring key event is accepted",
"an issuance in an own registry is accepted without an anchor",'''
v=TVal(); p=v.aid(1); r=vcp(p); v.reger.registries.add(r.pre)
assert v.tel(r,v.anchor(p,r),tvy=v.ltvy)=="ok"
c=cred(p,r); i=iss(c.said,r); a=v.anchor(p,i,give=False)
v.tel(i,a,tvy=v.ltvy); assert v.log(c.said)==[]
v.kel(a); v.esc(); assert v.log(c.said)==[i.said]
'''),
 sd("T06","C42",[(V,'''        if 'E1E' in ops:
''','''        if 'E1E' in ops and op is None:
''')],"an edge with E1E together with a delegative operator, to a credential of another issuee",
"E1E is not enforced beside NI2I or I2I",'''
v=TVal(); p,q,z=v.aid(1),v.aid(3),v.aid(5); r=vcp(p); v.do(p,r)
c=cred(p,r,to=q); i=iss(c.said,r); v.do(p,i); assert v.acdc(c,i)=="ok"
d=cred(p,r,to=z,edge={"x":{"n":c.said,"o":["NI2I","E1E"]}}); j=iss(d.said,r); v.do(p,j)
v.acdc(d,j); assert not v.saved(d)
e=cred(p,r,to=q,n=1,edge={"x":{"n":c.said,"o":["NI2I","E1E"]}}); k=iss(e.said,r); v.do(p,k)
assert v.acdc(e,k)=="ok"
'''),
 sd("T07","C42",[(V,'''                            Schemer(raw=scraw).verify(farCreder.raw)
''','''                            Schemer(raw=scraw).verify(creder.raw)
''')],"an edge that asks another schema than its source's own, which the near credential satisfies and the source does not",
"the schema an edge asks of its source is checked against the credential with the edge",'''
v=TVal(); p=v.aid(1); r=vcp(p); v.do(p,r)
c=cred(p,r); i=iss(c.said,r); v.do(p,i); v.acdc(c,i)
d=cred(p,r,has=(1,2),edge={"x":{"n":c.said,"s":schema(2).said}}); j=iss(d.said,r); v.do(p,j)
v.acdc(d,j); assert not v.saved(d)
'''),
 sd("T08","C42",[(V,'''                elif state.et in (Ilks.rev, Ilks.brv):
                    raise RevokedChainError(''','''                elif state.et == Ilks.rev:
                    raise RevokedChainError(''')],"a source credential revoked in a registry with backers",
"a credential whose source is revoked is saved",'''
v=TVal(); p=v.aid(1); r=vcp(p,[21],1); v.do(p,r,wig(r,(21,0)))
c=cred(p,r); i=bis(c.said,r,r); v.do(p,i,wig(i,(21,0))); assert v.acdc(c,i)=="ok"
x=brv(c.said,r,r,i); assert v.do(p,x,wig(x,(21,0)))=="ok"
d=cred(p,r,n=1,edge={"x":{"n":c.said}}); j=bis(d.said,r,r); v.do(p,j,wig(j,(21,0)))
v.acdc(d,j); assert not v.saved(d)
'''),
 sd("T09","C39",[(E,'''        # the backer threshold at this event in mgmt TEL
        rtoad = rserder.ked["bt"]

        baks = [bak for bak in self.reger.baks.get(dgkey)]
''','''        # the backer threshold at this event in mgmt TEL
        rtoad = self.toad

        baks = [bak for bak in self.reger.baks.get(dgkey)]
''')],"a backed issuance naming an earlier registry event, with a threshold the latest rotation has lowered",
"a backed event is judged by the latest threshold with the backers of the event it names",'''
v=TVal(); p=v.aid(1); r=vcp(p,[21,22],2); v.do(p,r,wig(r,(21,0),(22,1)))
t=vrt(r,r,1,[21,22],cuts=[22],toad=1); assert v.do(p,t,wig(t,(21,0)))=="ok"
c=cred(p,r); i=bis(c.said,r,r); v.do(p,i,wig(i,(21,0))); assert v.log(c.said)==[]
'''),
 sd("T10","C42",[(V,'''                        scraw = self.resolver.resolve(nodeSchema)
                        if not scraw:  # edge schema not cached yet -- transient
                            if self.escrowMSE(creder, prefixer, seqner, saider):
                                self.cues.append''','''                        scraw = self.resolver.resolve(nodeSchema)
                        if not scraw:  # edge schema not cached yet -- transient
                            if self.reger.mse.get(keys=creder.said) is None:
                                self.cues.append''')],"a credential whose edge asks a schema that becomes known only later",
"a credential that lacks only the schema its edge asks is dropped",'''
v=TVal(); v.db.schema.rem(keys=schema(2).said); p=v.aid(1); r=vcp(p); v.do(p,r)
c=cred(p,r,has=(1,2)); i=iss(c.said,r); v.do(p,i); v.acdc(c,i)
d=cred(p,r,edge={"x":{"n":c.said,"s":schema(2).said}}); j=iss(d.said,r); v.do(p,j)
v.acdc(d,j); assert not v.saved(d)
v.db.schema.pin(keys=schema(2).said,val=schema(2)); v.vry.processEscrows(); assert v.saved(d)
'''),
 sd("T11","C44",[(E,'''        self.toad = int(ked["bt"], 16)
        self.baks = ked["b"]
''','''        self.toad = int(ked["bt"], 16) if len(ked["b"]) < 16 else int(ked["bt"])
        self.baks = ked["b"]
''')],"a registry with sixteen backers or more and a threshold past nine, after a restart",
"the backer threshold is read wrongly when a registry is reloaded",'''
v=TVal(keep=True); b=list(range(21,38)); p=v.aid(1); r=vcp(p,b,16)
assert v.do(p,r,wig(r,*[(w,j) for j,w in enumerate(b)]))=="ok"
v.restart(); assert v.reger.tevers[r.pre].toad==16
'''),
 sd("T12","C44",[(E,'''        tibs = self.tibs.get(keys=(pre, dig))
        couple = self.ancs.get(keys=dgKey(pre, dig))

        if not tibs and couple is None:
''','''        tibs = self.tibs.get(keys=(pre, dig)) if self.baks.get(keys=dgKey(pre, dig)) else None
        couple = self.ancs.get(keys=dgKey(pre, dig))

        if not tibs and couple is None:
''')],"a replay of the log of a credential issued in a registry with backers",
"the replay of a backed issuance lacks its backer signatures",'''
v=TVal(); p=v.aid(1); r=vcp(p,[21],1); v.do(p,r,wig(r,(21,0)))
c=cred(p,r); i=bis(c.said,r,r); assert v.do(p,i,wig(i,(21,0)))=="ok"
u=TVal(); u.psr=parsing.Parser(framed=True,kvy=u.kvy,tvy=u.tvy)
for m in v.db.clonePreIter(pre=p,gvrsn=Vrsn_1_0): u.psr.parse(ims=bytearray(m),version=Vrsn_1_0)
for k in (r.pre,c.said):
    for m in v.reger.clonePreIter(pre=k,gvrsn=Vrsn_1_0): u.psr.parse(ims=bytearray(m),version=Vrsn_1_0)
assert u.log(c.said)==[i.said]
'''),
 sd("T13","C43",[(E,'''                # still waiting on missing prior event to validate
                if logger.isEnabledFor(logging.TRACE):
                    logger.trace("Tevery OOO unescrow failed: %s\\n", ex.args[0])
                    logger.exception("Tevery OOO unescrow failed: %s\\n", ex.args[0])
''','''                # still waiting on missing prior event to validate
                if sn == 0:  # nothing comes before an inception
                    self.reger.oots.rem(keys=pre, on=sn, val=digb)
                if logger.isEnabledFor(logging.TRACE):
                    logger.trace("Tevery OOO unescrow failed: %s\\n", ex.args[0])
                    logger.exception("Tevery OOO unescrow failed: %s\\n", ex.args[0])
''')],"an issuance that comes before its registry, with an escrow pass before the registry comes",
"an issuance that waits for its registry is dropped by the next escrow pass",'''
v=TVal(); p=v.aid(1); r=vcp(p); a=v.anchor(p,r); c=cred(p,r); i=iss(c.said,r); b=v.anchor(p,i)
v.tel(i,b); v.esc(); v.tel(r,a); v.esc(); assert v.log(c.said)==[i.said]
'''),
 sd("T14","C42",[(V,'''        if creder.iseaid is not None:
            subject = creder.iseaid.encode("utf-8")
            self.reger.subjs.add(keys=subject, val=saider)
''','''        if creder.iseaid is not None and creder.iseaid != creder.israid:
            subject = creder.iseaid.encode("utf-8")
            self.reger.subjs.add(keys=subject, val=saider)
''')],"a credential an issuer issues to itself",
"credentials issued to the issuer itself are not indexed by subject",'''
v=TVal(); p=v.aid(1); r=vcp(p); v.do(p,r); c=cred(p,r,to=p); i=iss(c.said,r); v.do(p,i)
assert v.acdc(c,i)=="ok" and v.reger.subjs.get(keys=p)[0].qb64==c.said
'''),
 sd("T15","C41",[(E,'''        dig = self.db.kels.getLast(keys=self.pre, on=seqner.sn)
        if not dig:
            return False
        else:
            dig = dig.encode("utf-8")

        # retrieve event by dig
        if not (eserder := self.db.evts.get(keys=(self.pre, dig))):
''','''        dig = saider.qb64 if saider.qb64 in self.db.kels.get(keys=self.pre, on=seqner.sn) else None
        if not dig:
            return False
        else:
            dig = dig.encode("utf-8")

        # retrieve event by dig
        if not (eserder := self.db.evts.get(keys=(self.pre, dig))):
''')],"an event sealed only in an interaction that a recovery rotation has superseded",
"a superseded key event still anchors transaction events",'''
v=TVal(); e=icp([1],[2]); v.give(e,sig(e,1)); r=vcp(e.pre); a=ixn(e.pre,1,e.said,[seal(r)]); v.give(a,sig(a,1))
b=rot(e.pre,1,e.said,[2],[3]); assert v.give(b,sig(b,2))=="ok"
v.tel(r,a); assert v.log(r.pre)==[]
'''),
]
