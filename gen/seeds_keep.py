K="src/keri/app/keeping.py"
P="from keeph import *\n"
def sd(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=P+demo, kh=True, extra=["keeph.py"])
SEEDS=[
 sd("N01","C37",[(K,'''                                          only=True if o is None else False,
''','''                                          only=not o,
''')] ,"signing a rotation with a key that was first of the prior next keys but is not first now (index > 0, ondex 0)",
"the signature says it is of a key that was not committed to",'''
k=Ks(); p,v,d=k.icp(icount=2,ncount=2)
s=k.m.sign(b"x",verfers=v,indices=[1,2],ondices=[0,None])
assert [(g.index,g.ondex) for g in s]==[(1,0),(2,None)], [(g.index,g.ondex) for g in s]
'''),
 sd("N02","C37",[(K,'''        i = 0
        while (pl := self.ks.pubs.get(riKey(old, i))):
''','''        for i in range(oldsit.nxt.ridx + 1):
            if not (pl := self.ks.pubs.get(riKey(old, i))):
                break
'''),(K,''' pre={}".format(old, i, new))
            i += 1
''',''' pre={}".format(old, i, new))
''')],"an identifier whose further keys were ingested is moved to its new prefix, then replayed past the next keys",
"the lots of keys after the next are lost, the replay ends early",'''
k=Ks(); ss=[[S(i).qb64] for i in range(4)]
p,vs=k.m.ingest(ss,iridx=0,temp=True); n=Diger(ser=b"new").qb64
k.m.move(old=p,new=n)
assert [x.qb64 for x in k.m.replay(n)[0]]==K(1)
assert [x.qb64 for x in k.m.replay(n)[0]]==K(2)
assert [x.qb64 for x in k.m.replay(n)[0]]==K(3)
'''),
 sd("N03","C37",[(K,'''            if erase:
                for pub in old.pubs:  # remove prior old prikeys not current old
''','''            if erase:
                for pub in ps.old.pubs:  # remove prior old prikeys
''')] ,"a replay with erasing that is to be taken back, as when the rotation event it was for fails",
"the keys just left, still wanted to take the rotation back, are erased",'''
k=Ks(); ss=[[S(i).qb64] for i in range(4)]
p,vs=k.m.ingest(ss,iridx=0,temp=True); b=k.pubs(p)
k.m.replay(p); k.ks.sits.pin(p,val=b)
assert k.m.sign(b"x",pubs=b.new.pubs)
'''),
 sd("N04","C46",[(K,'''            for signer in csigners:  # store secrets (private key val keyed by public key)
                self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                                 encrypter=self.encrypter)
''','''            for signer in csigners:  # store secrets (private key val keyed by public key)
                self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                                 encrypter=self.encrypter if ridx == iridx else None)
''')],"keys other than the ones in use are ingested into an encrypted keystore",
"their private keys are stored in the clear",'''
k=Ks(1); ss=[[S(i).qb64] for i in range(3)]
k.m.ingest(ss,iridx=1,temp=True)
for i in range(3): assert S(i).raw not in dict(k.vals(k.ks.pris))[S(i).verfer.qb64b] and S(i).qb64b not in dict(k.vals(k.ks.pris))[S(i).verfer.qb64b]
assert k.m.sign(b"x",pubs=K(0,1,2))
'''),
 sd("N05","C46",[(K,'''            pp.salt = (creator.salt if not self.encrypter
''','''            pp.salt = (creator.salt if not self.encrypter or not rooted
''')],"an identifier made from a salt of its own (not rooted) in an encrypted keystore",
"its salt is stored in the clear",'''
k=Ks(1); own=signing.Salter(raw=b"abcdef0123456789").qb64
p,v,d=k.icp(rooted=False,algo="salty",salt=own,tier="low")
assert not any(own.encode() in x for _,x in k.vals(k.ks.prms))
'''),
 sd("N06","C46",[(K,'''        for signer in nsigners:  # store secrets (private key val keyed by public key)
            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                             encrypter=self.encrypter)

        # store publics keys for lookup of private key for replay
''','''        for signer in nsigners:  # store secrets (private key val keyed by public key)
            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                             encrypter=self.encrypter if pp.salt else None)

        # store publics keys for lookup of private key for replay
''')],"an identifier with randomly made keys in an encrypted keystore",
"its next private keys are stored in the clear",'''
k=Ks(1); p,v,d=k.icp(algo="randy"); n=k.pubs(p).nxt.pubs[0]
raw=dict(k.vals(k.ks.pris))[n.encode()]
try: s=signing.Signer(qb64b=raw)
except Exception: s=None
assert s is None
'''),
 sd("N07","C47",[(K,'''        if erase:
            for pub in old.pubs:  # remove prior old prikeys not current old
                self.ks.pris.rem(pub)

        return (verfers, digers)


    def sign''','''        return (verfers, digers)


    def sign'''),(K,'''        if not ncodes:  # all same code, make list of len count of same code
            if ncount < 0:  # next may be zero if non-trans
                raise ValueError("Invalid count={} must be >= 0.".format(ncount))
''','''        if erase:
            for pub in old.pubs:  # remove prior old prikeys not current old
                self.ks.pris.rem(pub)

        if not ncodes:  # all same code, make list of len count of same code
            if ncount < 0:  # next may be zero if non-trans
                raise ValueError("Invalid count={} must be >= 0.".format(ncount))
''')],"a third rotation that is refused (a number of keys that makes no sense), or a crash in it",
"the refused rotation erased private keys",'''
k=Ks(); p,v,d=k.icp(); k.rot(p,erase=False)
assert fails(k.rot,p,ncount=-1)
assert k.m.sign(b"x",verfers=v)
'''),
 sd("N08","C47",[(K,'''        pidx = self.pidx  # get next pidx
        ridx = 0  # rotation index
''','''        pidx = self.pidx  # get next pidx
        self.pidx = pidx + 1  # increment for next inception
        ridx = 0  # rotation index
''')],"an inception that is refused, then one with the default stem",
"the refused inception counts, the next identifier's keys are not at its place",'''
k=Ks(); assert fails(k.icp,icount=0); assert k.m.pidx==0, k.m.pidx
p,v,d=k.icp(); assert p==made("000")
'''),
 sd("N09","C48",[(K,'''        kidx = ps.nxt.kidx + len(ps.new.pubs)
''','''        kidx = ps.nxt.kidx + len(ps.old.pubs)
''')],"rotation after lots of different sizes",
"keys are made at places other than theirs, and keys are made twice",'''
k=Ks(); p,v,d=k.icp(icount=1,ncount=3); k.rot(p,ncount=2)
assert k.pubs(p).nxt.pubs==[made("024"),made("025")]
'''),
 sd("N10","C48",[(K,'''        creator = Creatory(algo=pp.algo).make(salt=salt, stem=pp.stem, tier=pp.tier)
''','''        creator = Creatory(algo=pp.algo).make(salt=salt, stem=pp.stem, tier=self.tier)
''')],"rotation of an identifier whose tier is not the keystore's default",
"its later keys are stretched for another tier than its own",'''
k=Ks(); v,d=k.m.incept(tier="med"); p=v[0].qb64; k.m.rotate(p)
w=signing.Salter(qb64=SALT,tier="med").signer(path="022",transferable=True,tier="med").verfer.qb64
assert k.pubs(p).nxt.pubs==[w]
'''),
 sd("N11","C48",[(K,'''            nxt=PubLot(pubs=pubs, ridx=ridx+1, kidx=kidx+csize, dt=dt)
            ps.nxt = nxt
''','''            nxt=PubLot(pubs=pubs, ridx=ridx+1, kidx=kidx+len(pubs), dt=dt)
            ps.nxt = nxt
''')],"a replay to a next lot of another size than the one in use, then a rotation",
"the next keys are made at other places than theirs",'''
k=Ks(); ss=[[S(0).qb64],[S(1).qb64],[S(2).qb64,S(3).qb64]]
p,vs=k.m.ingest(ss,iridx=0,ncount=2,temp=True); k.m.replay(p); k.m.replay(p); k.rot(p)
assert k.pubs(p).nxt.pubs==[made("046")], k.pubs(p)
'''),
]
