V="src/keri/core/eventing.py"
C="src/keri/core/coring.py"
B="src/keri/db/basing.py"
P="from kh import *\n"
def sd(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=P+demo, kh=True)
SEEDS=[
 sd("K01","C20",[(V,'''            if not self.serder.compare(said=ked["p"]):  # prior event dig not match
''','''            if not (self.serder.compare(said=ked["p"]) or
                    self.lastEst.d == ked["p"]):  # prior event dig not match
''')],"an interaction event whose prior is the last establishment event, delivered when a later interaction has been accepted",
"an interaction event need not chain to the event before it",'''
v=Val(); e=icp([1],[2]); a=ixn(e.pre,1,e.said); b=ixn(e.pre,2,e.said)
assert v.give(e,sig(e,1))=="ok" and v.give(a,sig(a,1))=="ok"
v.give(b,sig(b,1)); assert not v.has(b) and v.tip(e.pre)==a.said
'''),
 sd("K02","C20",[(V,'''            if self.estOnly:
                raise ValidationError("Unexpected non-establishment event = {}."
''','''            if self.estOnly and not self.delegated:
                raise ValidationError("Unexpected non-establishment event = {}."
''')],"a delegated identifier with the establishment only trait that issues an interaction event",
"establishment only identifiers accept interaction events when delegated",'''
v=Val(); d=icp([1],[2]); e=dip([3],[4],d.pre,cnfg=[TraitDex.EstOnly]); a=ixn(d.pre,1,d.said,[seal(e)])
v.give(d,sig(d,1)); v.give(a,sig(a,1)); assert v.give(e,sig(e,3),src=a)=="ok"
x=ixn(e.pre,1,e.said); v.give(x,sig(x,3)); assert not v.has(x)
'''),
 sd("K03","C21",[(V,'''    vindices = []
    vsigers = []
    for siger in uvsigers:
        if siger.verfer.verify(siger.raw, raw):
''','''    vindices = []
    vsigers = []
    vraws = set()  # do not verify the same signature twice
    for siger in uvsigers:
        if siger.raw in vraws or siger.verfer.verify(siger.raw, raw):
            vraws.add(siger.raw)
''')],"one valid signature attached again under the index of another key",
"a signature counts for a key that did not make it",'''
v=Val(); e=icp([1,2],[3,4],isith="2",nsith="2")
v.give(e,sig(e,(1,0),(1,1))); assert v.tip(e.pre) is None
'''),
 sd("K04","C21",[(C,'''                            if sats[wio]:
                                vw += w
                            wio += 1
''','''                            if sats[wio]:
                                vw += w
                            wio += 1
                            if vw >= 1:  # enough
                                break
''')],"a nested weighted threshold, the first nested group satisfied by less than all of its members",
"indices after a nested group are counted for the wrong keys",'''
v=Val(); e=icp([1,2,3],[4],isith=[{"1/2":["1","1"]},"1/2"])
v.give(e,sig(e,(1,0),(2,1))); assert v.tip(e.pre) is None
'''),
 sd("K05","C22",[(V,'''            kdig = Diger(ser=siger.verfer.qb64b, code=diger.code).qb64
            if kdig == diger.qb64:
''','''            kdig = Diger(ser=siger.verfer.qb64b, code=diger.code).qb64
            if kdig in [ndiger.qb64 for ndiger in ndigers]:
''')],"a rotation signed by one precommitted key twice, exposing another index of the next key digests",
"a key counts toward the prior next threshold at an index that does not commit to it",'''
v=Val(); e=icp([1],[2,3,4],nsith=["1/4","1/4","3/4"]); assert v.give(e,sig(e,1))=="ok"
r=rot(e.pre,1,e.said,[2,9,3],[5],isith="2")
v.give(r,sig(r,(2,0,0),(3,2,2),(9,1,None))); assert not v.has(r)
'''),
 sd("K06","C23",[(V,'''        if witset & addset:  # non empty intersection
            raise ValidationError(f"Intersecting wits = {owits} and  adds ="
                                  f"{adds} for evt = {serder.ked}.")

        wits = list((witset - cutset) | addset)
''','''        if witset & addset:  # non empty intersection
            raise ValidationError(f"Intersecting wits = {owits} and  adds ="
                                  f"{adds} for evt = {serder.ked}.")

        wits = list(addset | (witset - cutset))
''')],"a rotation that adds a witness while keeping another, receipted by the kept witness",
"the witness list of a rotation is in the wrong order",'''
v=Val(); e=icp([1],[2],wits=W(21,22),toad=1); assert v.give(e,sig(e,1),wig(e,(21,0)))=="ok"
r=rot(e.pre,1,e.said,[2],[3],wits=W(21,22),adds=W(23),toad=3)
v.give(r,sig(r,2),wig(r,(21,0),(22,1),(23,2))); assert v.has(r) and v.db.kevers[e.pre].wits==W(21,22,23)
'''),
 sd("K07","C23",[(V,"""        werfers = [Verfer(qb64=wit) for wit in wits]  # get witness public key verifiers
        # get unique verified wigers""","""        werfers = [Verfer(qb64=wit) for wit in wits if wit not in self.cuts]  # get witness public key verifiers
        # get unique verified wigers""")],"a rotation that adds back a witness that the rotation before it cut",
"a witness that was cut by the rotation before is not counted, and those after it are matched to the wrong index, when added back",'''
v=Val(); e=icp([1],[2],wits=W(21,22),toad=1); assert v.give(e,sig(e,1),wig(e,(21,0)))=="ok"
r=rot(e.pre,1,e.said,[2],[3],wits=W(21,22),cuts=W(22),toad=1); assert v.give(r,sig(r,(2,0,0)),wig(r,(21,0)))=="ok"
q=rot(e.pre,2,r.said,[3],[4],wits=W(21),adds=W(22),toad=2); v.give(q,sig(q,(3,0,0)),wig(q,(21,0),(22,1))); assert v.has(q)
'''),
 sd("K08","C24",[(V,'''                if not pserder.compare(said=prior):  # bad recovery event
''','''                if not prior in self.db.kels.get(keys=pre, on=psn):  # bad recovery event
''')],"a second recovery rotation whose prior is an interaction that an earlier recovery superseded",
"recovery may build upon a superseded event",'''
v=Val(); e=icp([1],[2]); v.give(e,sig(e,1)); a=ixn(e.pre,1,e.said); v.give(a,sig(a,1))
r=rot(e.pre,1,e.said,[2],[3]); assert v.give(r,sig(r,(2,0,0)))=="ok"
b=ixn(e.pre,2,r.said); assert v.give(b,sig(b,2))=="ok"
q=rot(e.pre,2,a.said,[3],[4]); v.give(q,sig(q,(3,0,0))); assert not v.has(q)
'''),
 sd("K09","C24",[(V,"""                if nindex > oindex:  # superseding delegation seal is later
""","""                if nindex != oindex:  # superseding delegation seal is later
""")],"one delegating event that seals two rotations of its delegate at the same sequence number, the earlier sealed delivered after the later sealed",
"a delegated rotation sealed before the accepted one supersedes it",'''
v=Val(); d=icp([1],[2]); v.give(d,sig(d,1)); e=dip([3],[4],d.pre)
a=ixn(d.pre,1,d.said,[seal(e)]); v.give(a,sig(a,1)); assert v.give(e,sig(e,3),src=a)=="ok"
r1=drt(e.pre,1,e.said,[4],[5]); r2=drt(e.pre,1,e.said,[4],[6])
b=ixn(d.pre,2,a.said,[seal(r1),seal(r2)]); v.give(b,sig(b,1))
assert v.give(r2,sig(r2,(4,0,0)),src=b)=="ok"
v.give(r1,sig(r1,(4,0,0)),src=b); assert v.tip(e.pre)==r2.said
'''),
 sd("K10","C25",[(V,'''                    if (dseal.i == serder.pre and
                        dseal.s == serder.sner.numh and
                        serder.compare(said=dseal.d)):
''','''                    if (dseal.i == serder.pre and
                        dseal.s == serder.sner.numh):
''')],"a delegated event whose attached source seal points at an event that seals another event of the same identifier at the same sequence number",
"a delegation seal of one event approves another",'''
v=Val(); d=icp([1],[2]); v.give(d,sig(d,1)); e=dip([3],[4],d.pre)
a=ixn(d.pre,1,d.said,[seal(e)]); v.give(a,sig(a,1)); v.give(e,sig(e,3),src=a)
r1=drt(e.pre,1,e.said,[4],[5]); r2=drt(e.pre,1,e.said,[4],[6])
b=ixn(d.pre,2,a.said,[seal(r1)]); v.give(b,sig(b,1))
v.give(r2,sig(r2,(4,0,0)),src=b); assert not v.has(r2)
'''),
 sd("K11","C26",[(V,'''        if sigers:
            self.db.sigs.put(keys=dgkey, vals=sigers)
        if wigers:
            self.db.wigs.put(keys=dgkey, vals=wigers)
        if delsner and delsger:
            self.db.udes.put(keys=dgkey, val=(delsner, delsger))  # idempotent

        self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
        # update event source
        if esr := self.db.esrs.get(keys=dgkey):  # preexisting esr
            if local and not esr.local:  # local overwrites prexisting remote
                esr.local = local
                self.db.esrs.pin(keys=dgkey, val=esr)
            # otherwise don't change
        else:  # not preexisting so put
            esr = EventSourceRecord(local=local)
            self.db.esrs.put(keys=dgkey, val=esr)

        snkey = snKey(serder.preb, serder.sn)
''','''        if sigers:
            self.db.sigs.put(keys=dgkey, vals=sigers)
        if wigers and not self.db.wigs.get(keys=dgkey):
            self.db.wigs.put(keys=dgkey, vals=wigers)
        if delsner and delsger:
            self.db.udes.put(keys=dgkey, val=(delsner, delsger))  # idempotent

        self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
        # update event source
        if esr := self.db.esrs.get(keys=dgkey):  # preexisting esr
            if local and not esr.local:  # local overwrites prexisting remote
                esr.local = local
                self.db.esrs.pin(keys=dgkey, val=esr)
            # otherwise don't change
        else:  # not preexisting so put
            esr = EventSourceRecord(local=local)
            self.db.esrs.put(keys=dgkey, val=esr)

        snkey = snKey(serder.preb, serder.sn)
''')],"an event partially signed, delivered twice, each time with other witness receipts, then completed",
"witness receipts that come with the second delivery of a partially signed event are lost",'''
v=Val(); e=icp([1,2,3],[4],isith="3",wits=W(21,22),toad=2)
v.give(e,sig(e,1),wig(e,(21,0))); v.give(e,sig(e,(2,1)),wig(e,(22,1))); v.give(e,sig(e,(3,2)))
v.esc(); v.esc(); assert v.tip(e.pre)==e.said
'''),
 sd("K12","C27",[(V,'            for sprefixer, snumber, sdiger, sigers in tsgs:  # iterate over each tsg\n                if not self.lax and sprefixer.qb64 in self.prefixes:  # own is receipter\n                    if pre in self.prefixes:  # skip own receipter of own event\n                        # sign own events as controller not endorse them via receipt\n                        raise ValidationError("Own pre={} receipter of own event"\n                                              " {}.".format(self.prefixes, serder.pretty()))\n                    if not local:  # skip own receipts of nonlocal events\n                        raise ValidationError("Own pre={} receipter of nonlocal event "\n                                              "{}.".format(self.prefixes, serder.pretty()))\n\n                # receipted event in db so attempt to get receipter est evt\n                # retrieve dig of last event at sn of est evt of receiptor.\n                sdig = self.db.kels.getLast(keys=sprefixer.qb64b, on=snumber.sn)\n                if sdig is None:\n                    # receiptor\'s est event not yet in receiptors\'s KEL\n                    # so need cue to discover est evt KEL for receipter from watcher etc\n                    self.escrowTReceipts(serder, sprefixer, snumber, sdiger, sigers)\n                    raise UnverifiedTransferableReceiptError("Unverified receipt: "\n                                                             "missing establishment event of transferable "\n                                                             "receipter for event={}."\n                                                             "".format(ked))\n                sdig = sdig.encode("utf-8")\n                # retrieve last event itself of receiptor est evt from sdig.\n                sserder = self.db.evts.get(keys=(sprefixer.qb64b, bytes(sdig)))\n                # assumes db ensures that sserder must not be none because sdig was in KE\n                if not sserder.compare(said=sdiger.qb64):  # endorser\'s dig not match event\n                    raise ValidationError("Bad trans indexed sig group at sn = {}"\n                                          " for ksn = {}."\n                                          "".format(snumber.sn, sserder.ked))\n\n                # verify sigs and if so write receipt to database\n                sverfers = sserder.verfers\n                if not sverfers:\n                    raise ValidationError(f"Invalid receipter\'s est. event"\n                                          f" dig={sdiger.qb64}  from pre="\n                                          f"{sprefixer.qb64}, no keys.")\n\n                #for siger in sigers:  # endorser (non-controller) signatures\n                    #if siger.index >= len(sverfers):\n                        #raise ValidationError(f"Index={siger.index} to large for keys.")\n\n                    #siger.verfer = sverfers[siger.index]  # assign verfer\n                    #if siger.verfer.verify(siger.raw, lserder.raw):  # verify sig\n                        ## good sig so write receipt quadruple to database\n                        #quadruple = (sprefixer, snumber, sdiger, siger)\n                        #self.db.vrcs.add(keys=(pre, ldig), val=quadruple)\n\n                # vrcsNew test to replace vrcs changed format of subdb\n                for siger in sigers:  # endorser (non-controller) signatures\n                    if siger.index >= len(sverfers):\n                        raise ValidationError(f"Index={siger.index} to large for keys.")\n\n                    siger.verfer = sverfers[siger.index]  # assign verfer\n                    if siger.verfer.verify(siger.raw, lserder.raw):  # verify sig\n                        # good sig so write receipt to database\n                        keys = (pre, ldig, sprefixer.qb64, snumber.onkey, sdiger.qb64)\n                        self.db.vrcs.add(keys=keys, val=siger)  # add to ioset at keys\n\n            for sprefixer, snumber, sdiger, sigers in rsgs:','            for sprefixer, snumber, sdiger, sigers in tsgs:  # iterate over each tsg\n                if not self.lax and sprefixer.qb64 in self.prefixes:  # own is receipter\n                    if pre in self.prefixes:  # skip own receipter of own event\n                        # sign own events as controller not endorse them via receipt\n                        raise ValidationError("Own pre={} receipter of own event"\n                                              " {}.".format(self.prefixes, serder.pretty()))\n                    if not local:  # skip own receipts of nonlocal events\n                        raise ValidationError("Own pre={} receipter of nonlocal event "\n                                              "{}.".format(self.prefixes, serder.pretty()))\n\n                # receipted event in db so attempt to get receipter est evt\n                # retrieve dig of last event at sn of est evt of receiptor.\n                sdig = self.db.kels.getLast(keys=sprefixer.qb64b, on=snumber.sn)\n                if sdig is None:\n                    # receiptor\'s est event not yet in receiptors\'s KEL\n                    # so need cue to discover est evt KEL for receipter from watcher etc\n                    self.escrowTReceipts(serder, sprefixer, snumber, sdiger, sigers)\n                    raise UnverifiedTransferableReceiptError("Unverified receipt: "\n                                                             "missing establishment event of transferable "\n                                                             "receipter for event={}."\n                                                             "".format(ked))\n                sdig = sdig.encode("utf-8")\n                # retrieve last event itself of receiptor est evt from sdig.\n                sserder = self.db.evts.get(keys=(sprefixer.qb64b, bytes(sdig)))\n                # assumes db ensures that sserder must not be none because sdig was in KE\n\n                # verify sigs and if so write receipt to database\n                sverfers = sserder.verfers\n                if not sverfers:\n                    raise ValidationError(f"Invalid receipter\'s est. event"\n                                          f" dig={sdiger.qb64}  from pre="\n                                          f"{sprefixer.qb64}, no keys.")\n\n                #for siger in sigers:  # endorser (non-controller) signatures\n                    #if siger.index >= len(sverfers):\n                        #raise ValidationError(f"Index={siger.index} to large for keys.")\n\n                    #siger.verfer = sverfers[siger.index]  # assign verfer\n                    #if siger.verfer.verify(siger.raw, lserder.raw):  # verify sig\n                        ## good sig so write receipt quadruple to database\n                        #quadruple = (sprefixer, snumber, sdiger, siger)\n                        #self.db.vrcs.add(keys=(pre, ldig), val=quadruple)\n\n                # vrcsNew test to replace vrcs changed format of subdb\n                for siger in sigers:  # endorser (non-controller) signatures\n                    if siger.index >= len(sverfers):\n                        raise ValidationError(f"Index={siger.index} to large for keys.")\n\n                    siger.verfer = sverfers[siger.index]  # assign verfer\n                    if siger.verfer.verify(siger.raw, lserder.raw):  # verify sig\n                        # good sig so write receipt to database\n                        keys = (pre, ldig, sprefixer.qb64, snumber.onkey, sdiger.qb64)\n                        self.db.vrcs.add(keys=keys, val=siger)  # add to ioset at keys\n\n            for sprefixer, snumber, sdiger, sigers in rsgs:')],"a transferable receipt that names an establishment event other than the receipter's event at that sequence number",
"a transferable receipt is logged under an establishment event that is not the receipter's",'''
v=Val(); e=icp([1],[2]); v.give(e,sig(e,1)); f=icp([3],[4]); v.give(f,sig(f,3))
rc=rct(e)
try: v.kvy.processReceipt(serder=rc,cigars=[],wigers=[],tsgs=[(Prefixer(qb64=f.pre),Number(num=0),Diger(ser=b"other"),sig(e,3))])
except ValidationError: pass
assert not list(v.db.vrcs.getTopItemIter(keys=(e.pre,)))
'''),
 sd("K13","C27",[(V,'''                if rpre in wits:  # its a witness receipt write in .wigs
                        index = wits.index(rpre)
''','''                if rpre in wits:  # its a witness receipt write in .wigs
                        index = self.kevers[pre].wits.index(rpre)
''')] if False else [(V,'''                if wiger.index >= len(wits):
                    continue  # skip invalid witness index
                wiger.verfer = Verfer(qb64=wits[wiger.index])  # assign verfer
                if wiger.verfer.transferable:  # skip transferable verfers
                    continue  # skip invalid witness prefix

                if not self.lax and wiger.verfer.qb64 in self.prefixes:  # own is witness
''','''                if wiger.index >= len(wits):
                    break  # invalid witness index
                wiger.verfer = Verfer(qb64=wits[wiger.index])  # assign verfer
                if wiger.verfer.transferable:  # skip transferable verfers
                    continue  # skip invalid witness prefix

                if not self.lax and wiger.verfer.qb64 in self.prefixes:  # own is witness
''')],"a receipt message with several indexed witness signatures the first of which has an index out of range",
"one bad witness signature of a receipt discards the good ones after it",'''
v=Val(); e=icp([1],[2],wits=W(21,22),toad=1); v.give(e,sig(e,1),wig(e,(21,0)))
rc=rct(e)
w1,w2=wig(e,(21,5),(22,1))
v.kvy.processReceipt(serder=rc,cigars=[],wigers=[w1,w2],tsgs=[],rsgs=[])
assert sorted(w.index for w in v.db.wigs.get(keys=(e.pre,e.said)))==[0,1]
'''),
 sd("K14","C28",[(V,'''        self.tholder = Tholder(sith=state.kt)
        self.ntholder = Tholder(sith=state.nt)
''','''        self.tholder = Tholder(sith=state.kt)
        self.ntholder = Tholder(sith=state.nt if state.n else state.kt)
        self.ntholder = self.tholder if len(state.n) == len(state.k) else self.ntholder
''')],"an identifier whose next threshold differs from its current one, a restart, then a rotation",
"after a restart the prior next threshold is taken from the current one",'''
v=Val(keep=True); e=icp([1,2],[3,4],isith="1",nsith="2"); v.give(e,sig(e,1)); v.restart()
r=rot(e.pre,1,e.said,[3,4],[5],isith="1"); v.give(r,sig(r,(3,0,0))); assert not v.has(r)
'''),
 sd("K15","C28",[(V,'''            self.sner = sner  # sequence number Number instance
            self.serder = serder  # need for digest agility includes .serder.diger
            self.ilk = ilk
            if fn is not None:  # first is non-idempotent for fn check mode fn is None
                self.fner = Number(num=fn)
                self.dater = Dater(dts=dts)
                self.db.states.pin(keys=self.prefixer.qb64, val=self.state())
''','''            self.sner = sner  # sequence number Number instance
            self.serder = serder  # need for digest agility includes .serder.diger
            if fn is not None:  # first is non-idempotent for fn check mode fn is None
                self.fner = Number(num=fn)
                self.dater = Dater(dts=dts)
                self.db.states.pin(keys=self.prefixer.qb64, val=self.state())
            self.ilk = ilk
''')],"an interaction accepted right after an establishment event, a restart, then a recovery rotation",
"the stored key state lags in the type of its latest event, so recovery fails after a restart",'''
v=Val(keep=True); e=icp([1],[2]); v.give(e,sig(e,1)); a=ixn(e.pre,1,e.said); v.give(a,sig(a,1)); v.restart()
r=rot(e.pre,1,e.said,[2],[3]); v.give(r,sig(r,(2,0,0))); assert v.tip(e.pre)==r.said
'''),
 sd("K16","C29",[(V,'''        if (not local and (self.locallyOwned() or
                            self.locallyWitnessed(wits=wits) or
                            self.locallyDelegated(pre=delpre))):
''','''        if (not local and (self.locallyOwned() or
                            self.locallyWitnessed() or
                            self.locallyDelegated(pre=delpre))):
''')],"a remote rotation that adds the local identifier as a witness",
"an event that designates a local witness is accepted from an unprotected source",'''
v=Val(own=W(21)); e=icp([1],[2],wits=W(22),toad=1); assert v.give(e,sig(e,1),wig(e,(22,0)))=="ok"
r=rot(e.pre,1,e.said,[2],[3],wits=W(22),adds=W(21),toad=1); v.give(r,sig(r,(2,0,0)),wig(r,(22,0)))
assert not v.has(r)
'''),
 sd("K17","C29",[(V,"""        if esr := self.db.esrs.get(keys=dgkey):  # preexisting esr
            if local and not esr.local:  # local overwrites prexisting remote
                esr.local = local
                self.db.esrs.pin(keys=dgkey, val=esr)
            # otherwise don't change
        else:  # not preexisting so put
            esr = EventSourceRecord(local=local)
            self.db.esrs.put(keys=dgkey, val=esr)

        self.db.dtss.put(keys=dgkey, val=Dater())
        self.db.sigs.put(keys=(serder.preb, serder.saidb), vals=sigers)
        self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
        if wigers:
            self.db.wigs.put(keys=dgkey, vals=wigers)
        if delsner and delsger:
            self.db.udes.put(keys=dgkey, val=(delsner, delsger))

        self.db.misfits""","""        esr = EventSourceRecord(local=local)
        self.db.esrs.pin(keys=dgkey, val=esr)

        self.db.dtss.put(keys=dgkey, val=Dater())
        self.db.sigs.put(keys=(serder.preb, serder.saidb), vals=sigers)
        self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
        if wigers:
            self.db.wigs.put(keys=dgkey, vals=wigers)
        if delsner and delsger:
            self.db.udes.put(keys=dgkey, val=(delsner, delsger))

        self.db.misfits""")],"an own event signed in portions that came locally, then also delivered remotely before the portions are put together",
"a remote delivery takes away the local protection of an escrowed event, which is then never accepted",'''
e=icp([1,2,3],[4],isith="3"); v=Val(own=[e.pre])
v.give(e,sig(e,1),local=True); v.give(e,sig(e,(2,1),(3,2)),local=True); v.give(e,sig(e,(2,1)),local=False); v.esc()
assert v.has(e)
'''),
]
