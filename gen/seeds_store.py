W="src/keri/db/webdbing.py"
L="src/keri/db/dbing.py"
G="tools/check_spec_examples.py"
T="tools/tag_spec_examples.py"
PRE='''import asyncio, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src", "keri", "db"))
import webdbing
class H:
    def __init__(s, b, n): s.b, s.n, s.l = b, n, dict(b.p.get(n, {}))
    def get(s, k, d=None): return s.l.get(k, d)
    def __getitem__(s, k): return s.l[k]
    def __setitem__(s, k, v): s.l[k] = v
    async def sync(s):
        if s.b.hook: await s.b.hook(s)
        s.b.p[s.n] = dict(s.l)
class B:
    def __init__(s): s.p, s.hook = {}, None
    async def open(s, n): return H(s, n)
def run(c): return asyncio.run(c)
async def opn(b, stores=("a.", "b."), **k):
    return await webdbing.WebDBer.open("d", list(stores), storageOpener=b.open, **k)
'''
def st(body):
    return PRE + body
SEEDS=[
 dict(id="S01", prop="C03", edits=[(W,'''        # 2. Remove all existing entries for this key
        self.remIoSet(db=db, key=key, sep=sep)
''','''        # 2. Remove existing entries for this key that would not be overwritten
        if self.cntIoSet(db=db, key=key, sep=sep) > len(vals):
            self.remIoSet(db=db, key=key, sep=sep)
''')], needs="a set from which an early member was removed, then pinned with as many or more values",
  breaks="pinIoSetVals leaves an old member behind",
  demo=st('''
d = run(opn(B())); a = d.env.open_db("a.")
d.putIoSetVals(a, b"k", [b"x", b"y", b"z"]); d.remIoSetVal(a, b"k", b"x"); d.remIoSetVal(a, b"k", b"y")
assert d.pinIoSetVals(a, b"k", [b"w"])
assert [v for _, v in d.getIoSetItemIter(a, b"k")] == [b"w"]
''')),
 dict(id="S02", prop="C07", edits=[(W,'''for key, val in records.items()}, sort_keys=True)''','''for key, val in records.items() if val}, sort_keys=True)''')], needs="an entry whose value is empty, flushed and reopened",
  breaks="entries with empty values are not persisted",
  demo=st('''
async def main():
    b = B(); d = await opn(b); a = d.env.open_db("a."); d.putIoSetVals(a, b"k", [b"", b"w"]); await d.flush()
    e = await opn(b); a = e.env.open_db("a.")
    assert e.cntIoSet(a, b"k") == 2
run(main())
''')),
 dict(id="S03", prop="C08", edits=[(W,'''        count = 0
        for subdb in self._stores.values():
            if not subdb.dirty:
                continue
''','''        count = 0
        pending = [subdb for subdb in self._stores.values() if subdb.dirty]
        for subdb in pending:
            subdb.dirty = False
        for subdb in pending:
''')], needs="a storage sync that fails, then a retry of the flush",
  breaks="stores whose sync failed are considered clean, so the retry loses their writes",
  demo=st('''
async def main():
    b = B(); d = await opn(b); a = d.env.open_db("a."); c = d.env.open_db("b."); await d.flush()
    d.setVal(a, b"k", b"1"); d.setVal(c, b"k", b"2")
    async def boom(h): raise OSError("quota")
    b.hook = boom
    try: await d.flush()
    except OSError: pass
    b.hook = None
    await d.flush()
    e = await opn(b)
    assert e.getVal(e.env.open_db("a."), b"k") == b"1"
    assert e.getVal(e.env.open_db("b."), b"k") == b"2"
run(main())
''')),
 dict(id="S04", prop="C02", edits=[(W,'''            ckey, cn = splitOnKey(ponkey, sep=sep)
            if ckey == key:
                if cn >= MaxON:''','''            ckey, cn = splitOnKey(ponkey, sep=sep)
            if ckey.startswith(key):
                if cn >= MaxON:''')], needs="append to a fresh key when the preceding key in the store begins with it",
  breaks="ordinal sequence of the new key does not start at zero",
  demo=st('''
d = run(opn(B())); a = d.env.open_db("a.")
d.appendOnVal(a, b"k-", b"x"); d.appendOnVal(a, b"k-", b"y")
assert d.appendOnVal(a, b"k", b"z") == 0
''')),
 dict(id="S05", prop="C01", edits=[(W,'''        if key in db.items:
            return False

        db.items[key] = val''','''        if db.items.get(key):
            return False

        db.items[key] = val''')], needs="put on a key holding the empty value",
  breaks="put overwrites an existing empty value",
  demo=st('''
d = run(opn(B())); a = d.env.open_db("a.")
assert d.putVal(a, b"k", b"")
assert d.putVal(a, b"k", b"new") is False
assert d.getVal(a, b"k") == b""
''')),
 dict(id="S06", prop="C09", edits=[(W,'''            if clear:
                handle[_RECORDS_KEY] = "{}"
                handle[_META_KEY] = "{}"
                await handle.sync()
''','''            if clear and handle.get(_META_KEY) not in (None, "{}"):
                handle[_RECORDS_KEY] = "{}"
                handle[_META_KEY] = "{}"
                await handle.sync()
''')], needs="clear while a store holds records whose metadata was lost",
  breaks="clearing does not reset a store with records but no metadata, so open keeps refusing it",
  demo=st('''
async def main():
    b = B(); d = await opn(b); a = d.env.open_db("a."); d.setVal(a, b"k", b"v"); await d.flush()
    b.p["d:a."].pop("__meta__")
    d = await opn(b, clear=True)
    a = d.env.open_db("a.")
    assert d.getVal(a, b"k") is None
run(main())
''')),

 dict(id="S07", prop="C04", edits=[(W,'''            # Stop when we leave this logical key
            if ckey != key:
                break

            # This ON >= requested ON so add it to delete''','''            # Stop when we leave this logical key
            if not ckey.startswith(key):
                break

            # This ON >= requested ON so add it to delete''')], needs="removal of all sets of a key that is a proper prefix of the next key",
  breaks="remOnAllIoSet also deletes sets of a following key",
  demo=st('''
d = run(opn(B())); a = d.env.open_db("a.")
d.putOnIoSetVals(a, b"k", on=0, vals=[b"x"]); d.putOnIoSetVals(a, b"kk", on=0, vals=[b"y"])
d.remOnAllIoSet(a, b"k")
assert list(d.getOnAllIoSetItemIter(a)) == [(b"kk", 0, b"y")]
''')),
 dict(id="S08", prop="C05", edits=[(W,'''                # New key so yield previous ON-group's last item
                if ckey != lkey:
                    yield last
                    last = (ckey, con, cval)
                    lkey = ckey
                    lon = con
                    continue

                # Same key, new ON''','''                # Same key, new ON''')], needs="two neighbouring keys whose last ordinals are equal, enumerated backward over everything",
  breaks="the last set of the smaller key is skipped",
  demo=st('''
d = run(opn(B())); a = d.env.open_db("a.")
d.putOnIoSetVals(a, b"j", on=3, vals=[b"x"]); d.putOnIoSetVals(a, b"k", on=3, vals=[b"y"])
assert list(d.getOnAllIoSetLastItemBackIter(a)) == [(b"k", 3, b"y"), (b"j", 3, b"x")]
''')),
 dict(id="S09", prop="C06", edits=[(W,'''        for iokey, val in self.getTopItemIter(db=db, top=top):
            key, ion = unsuffix(iokey, sep=sep)
            yield (key, val)
''','''        start = top if top else b""
        iokey = next(db.items.irange(minimum=start), None)
        while iokey is not None and iokey.startswith(start):
            key, ion = unsuffix(iokey, sep=sep)
            yield (key, db.items[iokey])
            iokey = next(db.items.irange(minimum=iokey, inclusive=(False, True)), None)
''')], needs="a member added at the end of the branch while it is being enumerated",
  breaks="the enumeration also yields entries added after it began",
  demo=st('''
d = run(opn(B())); a = d.env.open_db("a.")
d.putIoSetVals(a, b"k", [b"x", b"y"])
got = []
for k, v in d.getTopIoSetItemIter(a, b"k"):
    got.append(v)
    if len(got) < 5: d.addIoSetVal(a, b"k", v + b"+")
assert got == [b"x", b"y"], got
''')),
 dict(id="S10", prop="C11", edits=[(G,'''    if expected != actual:
        yield''','''    if isinstance(expected, str) and expected.strip() == actual.strip():
        return

    if expected != actual:
        yield''')],
  needs="strings that differ only in surrounding white space", breaks="such a drift goes unreported",
  demo='''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "tools"))
import check_spec_examples as c
ok, report = c.compare({"x": {"a": "v "}}, {"x": {"a": "v"}})
assert not ok
'''),
 dict(id="S11", prop="C12", edits=[(G,'''        if name in blocks:
            errors.append''','''        if name in blocks and blocks[name] != value:
            errors.append''')], needs="a marker repeated with an equal block",
  breaks="a duplicated marker goes unreported", demo='''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "tools"))
import check_spec_examples as c
b = "<!-- example: x -->\\n```json\\n{\\"a\\": 1}\\n```\\n"
blocks, errors = c.parse_spec_blocks(b + b)
assert errors
'''),
 dict(id="S12", prop="C13", edits=[(T,'''    for open_idx, name in sorted(inserts, reverse=True):''','''    for open_idx, name in inserts:''')],
  needs="two or more fences tagged in one run", breaks="later markers land inside the preceding block instead of before the fence",
  demo='''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "tools"))
import check_spec_examples as c, tag_spec_examples as g
man = {"x": {"a": 1}, "y": {"b": 2}}
text = "```json\\n{\\"a\\": 1}\\n```\\n```json\\n{\\"b\\": 2}\\n```\\n"
new, tagged, _ = g.tag(man, text)
blocks, errors = c.parse_spec_blocks(new)
assert blocks == man and not errors, new
'''),
 dict(id="S13", prop="C10", shims=True, edits=[(L,'''                else:  # later key so backup once
                    # either earlier no entry before last or earlier entry
                    # at same or earlier key
                    if cursor.prev():  # earlier entry, maybe same or earlier key
                        onkey = cursor.key()
                        ckey, cn = splitOnKey(onkey, sep=sep)
                        if ckey == key:''','''                else:  # later key so backup once
                    # either earlier no entry before last or earlier entry
                    # at same or earlier key
                    if cursor.prev():  # earlier entry, maybe same or earlier key
                        onkey = cursor.key()
                        ckey, cn = splitOnKey(onkey, sep=sep)
                        if ckey.startswith(key):''')], needs="LMDB append to a fresh key that sorts just after a longer key with the same beginning and before another key",
  breaks="the LMDB store starts the new key at a nonzero ordinal where the browser store starts at zero",
  demo='''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "shims"))
import keri_env
from keri.db import dbing
with dbing.openLMDB(name="demo") as d:
    s = d.env.open_db(key=b"x.", dupsort=False)
    d.appendOnVal(s, b"k-", b"1"); d.appendOnVal(s, b"z", b"2")
    assert d.appendOnVal(s, b"k", b"3") == 0
'''),
]
