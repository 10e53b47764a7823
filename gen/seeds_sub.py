S = "src/keri/db/subing.py"
L = "src/keri/db/dbing.py"
PRE = '''import os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "shims"))
import keri_env
from keri.db import dbing, subing, koming
from keri.core import coring, signing
db = dbing.LMDBer(name="demo", temp=True, reopen=True)
'''
def d(b):
    return PRE + b + "\ndb.close(clear=True)\n"
SEEDS = [
 dict(id="U01", prop="C14", shims=True, edits=[(S, '''        if topive and keys[-1]:  # topive and keys is not already partial
''', '''        if topive and len(keys) > 1 and keys[-1]:  # topive and keys is not already partial
''')],
  needs="a branch named by one key part while another first part begins with it", breaks="trimming a branch removes entries of another branch",
  demo=d('''
s = subing.Suber(db=db, subkey="s.")
s.put(("a", "x"), "1"); s.put(("ab", "x"), "2")
s.trim(("a",), topive=True)
assert s.get(("ab", "x")) == "2"
''')),
 dict(id="U02", prop="C14", shims=True, edits=[(S, '''            verfer = coring.Verfer(qb64b=ikeys[-1])   # last split
            if decrypter:
''', '''            verfer = coring.Verfer(qb64b=ikeys[0])   # first split
            if decrypter:
''')],
  needs="encrypted signers iterated whose keys have a part before the public key", breaks="iteration takes the first key part for the public key",
  demo=d('''
s = subing.CryptSignerSuber(db=db, subkey="s.")
e = signing.Signer(raw=b"e" * 32); enc = signing.Encrypter(verkey=e.verfer.qb64); dec = signing.Decrypter(seed=e.qb64b)
a = signing.Signer(raw=b"a" * 32); b = signing.Signer(raw=b"b" * 32, transferable=False)
s.put((b.verfer.qb64, a.verfer.qb64), a, encrypter=enc)
(k, v), = s.getTopItemIter(decrypter=dec)
assert v.qb64 == a.qb64 and v.verfer.transferable
''')),
 dict(id="U03", prop="C15", shims=True, edits=[(S, '''        return (self.db.appendOnIoSetVals(db=self.sdb,
                                         key=self._tokey(keys),
                                         vals=tuple(self._ser(val) for val in vals),
                                         sep=self.sep.encode()))
''', '''        kwa = dict(db=self.sdb, key=self._tokey(keys), vals=tuple(self._ser(val) for val in vals))
        if self.db.cntOnAll(db=self.sdb, key=kwa["key"], sep=self.sep.encode()):
            kwa["sep"] = self.sep.encode()
        return (self.db.appendOnIoSetVals(**kwa))
''')],
  needs="the first set appended under a key of a sub-database with a separator of its own", breaks="the appended set cannot be read",
  demo=d('''
s = subing.OnIoSetSuber(db=db, subkey="s.", sep="|")
assert s.append("a", ["x"]) == 0
assert s.get("a", 0) == ["x"]
''')),
 dict(id="U04", prop="C15", shims=True, edits=[(S, '''        return self.db.remIoSetVal(db=self.sdb,
                                   key=self._tokey(keys),
''', '''        if val is not None and len(held := self.get(keys)) > 2 and self._ser(held[0]) == self._ser(val):
            return IoSetSuber.pin(self, keys, held[:0:-1])
        return self.db.remIoSetVal(db=self.sdb,
                                   key=self._tokey(keys),
''')],
  needs="removal of the first of three or more members", breaks="the remaining members change order",
  demo=d('''
s = subing.IoSetSuber(db=db, subkey="s.")
s.put("a", ["x", "y", "z"]); s.rem("a", "x")
assert s.get("a") == ["y", "z"]
''')),

 dict(id="U05", prop="C16", shims=True, edits=[(L, '''                        if val == proval[33:]:  #  strip of proem
''', '''                        if bytes(proval).endswith(val):  #  after proem
''')],
  needs="removal of a value that is the ending of another member added before it", breaks="the other member is removed",
  demo=d('''
s = subing.IoDupSuber(db=db, subkey="s.")
s.put("a", ["xy", "y"]); s.rem("a", "y")
assert s.get("a") == ["xy"], s.get("a")
''')),
 dict(id="U06", prop="C16", shims=True, edits=[(L, '''        dups = set(self.getIoDupVals(db, key))  # get preexisting dups if any
        with self.env.begin(db=db, write=True, buffers=True) as txn:
            idx = 0
            cursor = txn.cursor()
            try:
                if cursor.set_key(key): # move to key if any
                    if cursor.last_dup(): # move to last dup
                        idx = 1 + int(bytes(cursor.value()[:32]), 16)  # get last index as int
''', '''        dups = set(self.getIoDupVals(db, key))  # get preexisting dups if any
        with self.env.begin(db=db, write=True, buffers=True) as txn:
            idx = 0
            cursor = txn.cursor()
            try:
                if cursor.set_key(key): # move to key if any
                    if cursor.last_dup(): # move to last dup
                        idx = cursor.count()  # next after those present
''')], needs="a value removed from the front, then others added", breaks="a value added later is enumerated before one added earlier",
  demo=d('''
s = subing.IoDupSuber(db=db, subkey="s.")
s.put("a", ["x", "z"]); s.rem("a", "x"); s.add("a", "b")
assert s.get("a") == ["z", "b"], s.get("a")
''')),
]
