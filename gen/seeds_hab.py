H="src/keri/app/habbing.py"
B="src/keri/db/basing.py"
P="from hh import *\n"
def sd(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=P+demo, kh=True, extra=["hh.py"])
SEEDS=[
 sd("H01","C38",[(H,"        if toad is None and not cuts and not adds:\n","        if toad is None and not adds:\n")],
"a rotation that only cuts witnesses, without a toad",
"the threshold of the witnesses before is kept for fewer witnesses",'''
h=House(); a=h.make("ann",wits=W(1,2,3,4),toad=2)
rotate(a,cuts=W(1))
assert a.kever.toader.num==3, a.kever.toader.num
'''),
 sd("H02","C38",[(H,"            ncount = len(kever.ndigers)  # use len of prior next digers as default","            ncount = len(kever.verfers)  # use len of prior digers as default")],
"a rotation that leaves the number of next keys to the habitat, whose next keys are not as many as the current",
"it commits to another number of next keys",'''
h=House(); a=h.make("ann",icount=1,ncount=3,isith="1",nsith="2")
rotate(a,nsith="2")
assert len(a.kever.ndigers)==3
'''),
 sd("H03","C38",[(H,'''        if ps_before.old.pubs:
            for pub in ps_before.old.pubs:
''','''        if ps_before.old.pubs:
            for pub in ps_before.new.pubs:
''')],"at least two rotations in a row","the keys before the last are not erased, those just left are",'''
h=House(); a=h.make("ann"); k=[keys(a)[0]]
for i in range(3):
    rotate(a); k.append(keys(a)[0])
assert not secret(h,k[0]) and not secret(h,k[1]) and secret(h,k[3])
'''),
 sd("H04","C49",[(H,'''                                          data=data, **kwa)
        except Exception:
''','''                                          data=data, **kwa)
        except ValidationError:
''')],"a rotation refused because of its thresholds, not of its signatures or keys",
"the keystore is left a rotation ahead of the log",'''
h=House(); a=h.make("ann")
assert fails(rotate,a,toad=3)
assert lots(h,a)[1]==keys(a), "ahead"
'''),
 sd("H05","C49",[(B,'''                removes.append(keys)  # no key state or KEL event for .hab record
''','''                self.prefixes.discard(data.hid)  # no key state or KEL event for .hab record
''')],"the process ended between recording a new identifier's name and accepting its inception event",
"the habery cannot be opened any more",'''
from keri.recording import HabitatRecord
h=House(keep=True); a=h.make("ann")
h.db.habs.pin(keys=N(5)[0],val=HabitatRecord(hid=N(5)[0],name="bob",domain=None))
h.db.names.pin(keys=("","bob"),val=N(5)[0])
h.reopen()
assert h.hby.habByName("ann").pre==a.pre and h.hby.habByName("bob") is None
'''),
 sd("H06","C38",[(H,'''        if not self.db.habs.rem(keys=(hab.pre,)):
            return False

        ns = "" if ns is None else ns
''','''        if not self.db.habs.rem(keys=(hab.pre,)):
            return False

        ns = "" if hab.ns is None else hab.ns
''')],"deleting by name an identifier of a namespace, after the habery was opened again",
"half of it is deleted: its name stays taken and it stays own",'''
h=House(keep=True); a=h.make("ann",ns="org"); p=a.pre
h.reopen()
assert h.hby.deleteHab("ann",ns="org") and p not in h.hby.prefixes and h.hby.habByName("ann",ns="org") is None
'''),
 sd("H07","C49",[(H,"            self.mgr.ks.sits.pin(self.pre, val=ps_before)\n            raise\n","            self.mgr.ks.sits.put(self.pre, val=ps_before)\n            raise\n")],
"a rotation that is refused after its keys were advanced","the keystore is left a rotation ahead of the log",'''
h=House(); a=h.make("ann",wits=W(1,2))
assert fails(rotate,a,cuts=W(4))
assert lots(h,a)[1]==keys(a), "ahead"
'''),
 sd("H08","C38",[(H,'''        if nsith is None:
            nsith = isith
        if ncount is None:
            ncount = icount
        if not transferable:
''','''        if nsith is None and ncount is None:
            nsith = isith
        if ncount is None:
            ncount = icount
        if not transferable:
''')],"making an identifier with a threshold and a number of next keys but no next threshold",
"its next threshold is not the one of its keys",'''
h=House(); a=h.make("ann",icount=3,isith="3",ncount=4)
assert a.kever.ntholder.sith=="3", a.kever.ntholder.sith
'''),
]
