S="src/keri/core/serdering.py"
M="src/keri/core/mapping.py"
H="from bh import *\n"
def sd(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=H+demo, kh=True, extra=["bh.py"])
SEEDS=[
 sd("B01","C36",[(S,'''            if k in osopts and v in osopts:
                raise AlternateFieldError(''','''            if k in osopts and v in oreqs:
                raise AlternateFieldError(''')],"a credential with both an attribute and an aggregate section",
"it is read as if it were right",'''
s=made(SerderACDC,1,None,i=dig(1),s=dig(2),a=dig(3))
assert taken(SerderACDC,s.raw)
bad=forged(s,lambda x: dict(x,A=dig(4)))
assert taken(SerderACDC,bad) is None, "both sections"
'''),
 sd("B02","C36",[(S,'''        #super(SerderACDC, self)._verify(**kwa)
        sad, saids = self._validate()

        sad, raw, size = self._compute(sad=sad, saids=saids)

        if raw != self.raw:
''','''        #super(SerderACDC, self)._verify(**kwa)
        sad, saids = self._validate()

        sad, raw, size = self._compute(sad=sad, saids=saids)

        if sad != self._sad:
''')],"a credential in other bytes than the canonical ones, its said computed on those that are",
"two different bodies have the same said",'''
s=made(SerderACDC,1,None,i=dig(1),s=dig(2),a=dict(d=dig(3),n=100.0))
assert taken(SerderACDC,s.raw)
bad=forged(s,lambda x: x,lambda raw: raw.replace(b"100.0",b"1.0e2"))
assert taken(SerderACDC,bad) is None, "respelled"
'''),
 sd("B03","C36",[(S,'''                        fs = ctr.count * 4  # frame size since qb64 text mode
                        frame = raw[:fs]  # extract list frame
                        raw = raw[fs:]
                        elements = []
                        while frame:  # not yet empty
                            elements.append(Matter(''','''                        fs = (ctr.count % 4096) * 4  # frame size since qb64 text mode
                        frame = raw[:fs]  # extract list frame
                        raw = raw[fs:]
                        elements = []
                        while frame:  # not yet empty
                            elements.append(Matter(''')],"a natively serialized rotation that takes on more than 372 of something",
"it cannot be read back",'''
kw=dict(i=dig(1),s="1",p=dig(2),kt="1",k=[dig(3)],nt="1",n=[],bt="0",br=[],ba=[],c=[],a=[])
for n in (5,400):
    s=made(SerderKERI,2,"rot",Kinds.cesr,**dict(kw,n=[dig(4)]*n))
    r=taken(SerderKERI,s.raw)
    assert r and len(r.sad["n"])==n, n
'''),
 sd("B04","C36",[(M,'''                if len(primitive.qb64) != len(val):  # not complete so invalid''','''                if len(primitive.qb64) > len(val):  # not complete so invalid''')],"text in a natively serialized map that begins with a primitive and goes on",
"the rest of the text is lost",'''
from keri.core.eventing import reply
for text in ("some text",dig(5),dig(5)+" and more"):
    s=made(SerderKERI,2,"rpy",Kinds.cesr,i=dig(1),dt="2024-03-01T01:02:03.000000+00:00",r="a/b",a=dict(m=text))
    r=taken(SerderKERI,s.raw)
    assert r and r.sad["a"]==dict(m=text), text
'''),
 sd("B05","C36",[(S,'''                        if agid:
                            csad[l] = agid  # assign agid as compaction
''','''                        if agid and compactify:
                            csad[l] = agid  # assign agid as compaction
''')],"a credential with an aggregate section given both in full and by identifier",
"the same credential has two identifiers",'''
from keri.core.mapping import Aggor
ag=Aggor(ael=["",dig(4),dig(5)],makify=True,kind=Kinds.json)
kw=dict(i=dig(1),s=dig(2))
a=made(SerderACDC,2,"acm",**kw,A=ag.agid)
b=made(SerderACDC,2,"acm",**kw,A=ag.ael)
assert a.said==b.said, "said of the aggregate in full"
'''),
]
