P="src/keri/core/parsing.py"
E="src/keri/core/eventing.py"
H="from ph import *\n"
def sd(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=H+demo, kh=True, extra=["ph.py"])
SEEDS=[
 sd("P01","C33",[(P,'''                    while len(ims) < eags and not framed:
                        yield
''','''                    if len(ims) < eags and not framed:
                        yield
''')],"the attachments of a message arriving in three or more pieces",
"attachments are taken short and the rest of the stream lost",'''
a,b=icp(0),icp(2)
w=wire(a,sigers=[sig(a),sig(a,3)]); n=len(a.raw)
chunks=[w[:n+4],w[n+4:n+30],w[n+30:n+60],w[n+60:]+wire(b,sigers=[sig(b,2)])]
got,left=parse(chunks)
assert saids(got)==[a.said,b.said], saids(got)
'''),
 sd("P02","C33",[(P,'''        gs = ctr.byteCount(cold=cold)
        while len(ims) < gs:
            if abort:  # assumes already full frame extracted unexpected problem
                raise ShortageError(f"Unexpected stream shortage on enclosed "
                                    f"group code={ctr.qb64}")
            yield  # wait until have full group size

        gims = ims[:gs]  # copy out group sized substream
        del ims[:gs]  # strip off from ims
        ssts = []
''','''        gs = ctr.count * 4
        while len(ims) < gs:
            if abort:  # assumes already full frame extracted unexpected problem
                raise ShortageError(f"Unexpected stream shortage on enclosed "
                                    f"group code={ctr.qb64}")
            yield  # wait until have full group size

        gims = ims[:gs]  # copy out group sized substream
        del ims[:gs]  # strip off from ims
        ssts = []
''')],"event seals attached in version 2 in binary",
"the message is lost",'''
a=icp(0)
w=wire(a,2,sigers=[sig(a)],bonds=[SealEvent(i=Prefixer(qb64=dig(1).qb64),s=Number(num=1),d=dig(2))])
n=len(a.raw)
got,left=parse([w],2); assert len(got)==1
got,left=parse([w[:n]+b2(w[n:])],2)
assert saids(got)==[a.said], got
'''),
 sd("P03","C33",[(P,'''        finally:
            while verstack:  # restore version to what it was
                self.version = verstack.pop()


        return exts  # parsed substream as dict of MsgParseDom
''','''        while verstack:  # restore version to what it was
            self.version = verstack.pop()

        return exts  # parsed substream as dict of MsgParseDom
''')],"an attachment group that switches to another version and is damaged after that",
"the following messages are read in the version of that group",'''
a,b=icp(0,1),icp(2,1)
inner=gvc(1)+bytes(Counter.enclose(qb64=b"",code="AttachmentGroup",version=V[1]))[:0]+bytes(eventing.messagize(a,sigers=[sig(a)],framed=True,gvrsn=V[1]))[len(a.raw):]
bad=bytearray(Counter.enclose(qb64=inner,code="AttachmentGroup",version=V[2])); bad[-80:-79]=b"~"
bad[16:18]=b"9_"
got,left=parse([a.raw+bytes(bad),wire(b,2,sigers=[sig(b,2)])],2)
assert saids(got)==[b.said], got
'''),
 sd("P04","C33",[(P,'''                    # use last one if more than one
                    pre, sigers = exts['lsgs'][-1] if exts['lsgs'] else (None, None)
                    exts["source"] = pre
                    exts["sigers"] = sigers
''','''                    # use last one if more than one
                    pre, sigers = exts['lsgs'][-1] if exts['lsgs'] else (None, None)
                    exts["source"] = pre
                    exts["sigers"].extend(sigers)
''')],"a query that comes with its requester's signatures and others",
"signatures of others are handed on as the requester's",'''
a=icp(0); q=eventing.query(pre=a.pre,route="ksn",query=dict(i=a.pre,src=a.pre),version=V[1],kind="JSON")
got,left=parse([wire(q,sigers=[sig(q,5)],lsgs=[(Prefixer(qb64=a.pre),[sig(q)])])])
assert len(got)==1 and len(got[0][1]["sigers"])==1, got
'''),
 sd("P05","C33",[(E,'''                for siger in sigers:
                    sims.extend(siger.qb64b)
                cims.extend(Counter.enclose(qb64=sims,
                                            code=Codens.ControllerIdxSigs,
                                            version=gvrsn))

            aims.extend(Counter.enclose(qb64=cims,
                                        code=Codens.TransLastIdxSigGroups,
                                        version=gvrsn))
''','''                for siger in sigers:
                    sims.extend(siger.qb64b)
                cims.extend(Counter.enclose(qb64=sims,
                                            code=Codens.ControllerIdxSigs,
                                            version=gvrsn))

                aims.extend(Counter.enclose(qb64=cims,
                                            code=Codens.TransLastIdxSigGroups,
                                            version=gvrsn))
''')],"two last-establishment signature groups on one message in version 2",
"the first group is sent twice",'''
a=icp(0)
g=[(Prefixer(qb64=dig(i).qb64),[sig(a,i)]) for i in range(2)]
got,left=parse([wire(a,2,sigers=[sig(a)],lsgs=g)],2)
assert len(got[0][1]["lsgs"])==2, len(got[0][1]["lsgs"])
'''),
]
