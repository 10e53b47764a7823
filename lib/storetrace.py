"""Recording executions of real keyed stores as traces for spec/StoreTrace.tla."""
import asyncio
import json
import os
import tempfile

import stores as S
from vcommon import Violation, MachineryError, tlc, cfgtext, scratch, tail

KEYPOOL = [[97], [98], [97, 98], [97, 45], [97, 95, 49], [66], [97, 97], [98, 45, 97], [122, 122]]
SEPS = [46, 46, 46, 124, 95, 43]
VALS = ["x", "y", "z", "w", "0x", "0x00ff", "longervalue1", "0xc3a9"]
FAMS = ["val", "on", "io", "onio"]


def gen_op(rng, fam, keys, ons, vals, sep, names=None, mutate=None):
    """A random abstract op of a family."""
    while True:
        n = rng.choice((names or (S.FAMOPS[fam] * 3 + S.COMMON)))
        if mutate is None or (n in S.MUTATORS) == mutate:
            break
    if n == "remTop" and rng.random() < 0.7:
        n = rng.choice([x for x in S.FAMOPS[fam] if x in S.MUTATORS])
    x = {"op": n, "k": [], "o": -1, "i": -1, "v": "", "vs": [], "top": []}
    nokey = n in ("cntAll", "remTop", "cntTop", "getTopItemIter", "getOnTopItemIter",
                  "getTopIoSetItemIter", "getOnTopIoSetItemIter")
    if not nokey:
        x["k"] = rng.choice(keys)
        emptyok = n not in ("putOnVal", "addOnIoSetVal", "remOnIoSetVal", "remOnIoSet",
                            "getOnIoSetLastItem", "cntOnIoSet", "getOnIoSetItemIter")
        if emptyok and rng.random() < (0.01 if n in S.MUTATORS else 0.06):
            x["k"] = []
    elif n != "cntAll":
        k = rng.choice(keys)
        c = rng.random()
        x["top"] = ([] if c < (0.02 if n == "remTop" else 0.25) else k if c < .6
                    else k + [sep] if fam != "val" else k)
    if fam in ("on", "onio") and not nokey and n not in ("appendOnVal", "appendOnIoSetVals"):
        x["o"] = rng.choice(ons)
        if n in ("remOnAll", "remOnAllIoSet") and rng.random() < .5:
            x["o"] = max(ons)
        if n in ("getOnAllIoSetItemBackIter", "getOnAllIoSetLastItemBackIter") and rng.random() < .4:
            x["o"] = -1
        if n in ("getOnAllItemIter", "cntOnAll", "getOnAllIoSetItemIter", "cntOnAllIoSet",
                 "getOnAllIoSetLastItemIter") and rng.random() < .4:
            x["o"] = 0
    if n in ("cntIoSet", "getIoSetItemIter", "cntOnIoSet", "getOnIoSetItemIter"):
        x["i"] = rng.choice([0, 0, 0, 1, 2, 5])
    if n in ("putVal", "setVal", "putOnVal", "pinOnVal", "appendOnVal", "addIoSetVal",
             "remIoSetVal", "addOnIoSetVal", "remOnIoSetVal"):
        x["v"] = rng.choice(vals)
    if n in ("putIoSetVals", "pinIoSetVals", "putOnIoSetVals", "pinOnIoSetVals",
             "appendOnIoSetVals"):
        x["vs"] = [rng.choice(vals) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    return x


class Recorder:
    def __init__(self):
        self.ev = []

    def add(self, **e):
        self.ev.append(e)


def domain(rng, keys=4):
    ks = rng.sample(KEYPOOL, keys)
    sep = rng.choice(SEPS)
    ks = [k for k in ks if sep not in k] or [[97]]
    ons = rng.choice([[0, 1, 2], [0, 1, 2, 3, 9], [0, 1, 10, 15, 16, 17, 255, 256], [0, 1, 998, 999, 1000]])
    vals = rng.sample(VALS, 4)
    return ks, sep, ons, vals


def sepkw(sep):
    return None if sep == 46 else bytes([sep])


def contract_trace(rng, store, rec, length, fam, names=None):
    """Random calls on one family of one store, all results recorded."""
    keys, sep, ons, vals = domain(rng)
    store.wipe()
    rec.add(e="world", n=2, sep=sep)
    open_iters = {}
    nid = 0
    for _ in range(length):
        x = gen_op(rng, fam, keys, ons, vals, sep, names)
        if store.kind == "lmdb" and x["k"] == [] and x["op"] in ("putVal", "setVal", "getVal"):
            continue
        it = x["op"] not in (S.BOOL | S.INT | S.VAL | S.ITEM)
        if it and rng.random() < .35 and store.kind == "web":
            # take the first item, go on writing, exhaust it later
            try:
                g = iter(S.call(store.d, store.dbs[0], x, sepkw(sep)))
                first = next(g, None)
                rec.add(e="iterBegin", s=1, id=nid, x=x)
                open_iters[nid] = (g, [] if first is None else [first])
                nid += 1
            except (KeyError, ValueError):
                pass
            continue
        rec.add(e="call", s=1, x=x, r=S.perform(store.d, store.dbs[0], x, sepkw(sep)))
        if open_iters and rng.random() < .3:
            finish_iter(rng.choice(list(open_iters)), open_iters, rec)
    for i in list(open_iters):
        finish_iter(i, open_iters, rec)


def finish_iter(i, open_iters, rec):
    g, got = open_iters.pop(i)
    try:
        got = got + list(g)
        r = S.enc_iter(got)
    except Exception as ex:
        r = S.R(f"raised {type(ex).__name__}: {ex}"[:120])
    rec.add(e="iterEnd", id=i, r=r)


def raw_entry(fam, k, v, sep):
    """Decode a stored key of a family into a spec entry."""
    sp = bytes([sep])
    o = i = -1
    try:
        if fam in ("io", "onio"):
            k, h = k.rsplit(sp, 1)
            i = int(h, 16)
        if fam in ("on", "onio"):
            k, h = k.rsplit(sp, 1)
            o = S.on_abs(int(h, 16))
    except ValueError:
        return {"k": [-5], "o": -5, "i": -5, "v": repr(k)}
    return {"k": list(k), "o": o, "i": i, "v": S.V(v)}


class WebWorld:
    """Several stores of one WebDBer over simulated browser storage, with
    faults, crashes, reopens and concurrent writes, everything recorded."""

    def __init__(self, rng, rec, fams):
        self.W = S.load_webdbing()
        self.rng, self.rec, self.fams = rng, rec, fams
        self.names = [f"s{j}." for j in range(len(fams))]
        self.n = len(fams) + 1
        self.keys, self.sep, self.ons, self.vals = domain(rng)
        self.back = S.Backend()
        self.back.hook = None
        self.rec.add(e="world", n=self.n, sep=self.sep)
        self.nflush = 0
        self.synced = {}
        self.depth = 0

    async def start(self, clear=False, names=None):
        self.declared = names or self.names
        self.back.hook = None
        self.d = await self.W.WebDBer.open("verif", list(self.declared), clear=clear,
                                           storageOpener=self.back.open)
        self.dbs = {}

    def bind(self, j):
        if j in self.dbs or self.names[j] not in self.declared:
            return
        dup = self.rng.random() < .3
        db = self.d.env.open_db(self.names[j] if self.rng.random() < .5
                                else self.names[j].encode(), dupsort=dup)
        self.dbs[j] = db
        self.rec.add(e="bind", s=j + 1, dup="T" if dup else "F", r="T" if db.dupsort else "F")

    def call(self, mutate=None):
        js = [j for j in range(len(self.fams)) if self.names[j] in self.declared]
        j = self.rng.choice(js)
        self.bind(j)
        if self.rng.random() < .06:
            return self.version()
        x = gen_op(self.rng, self.fams[j], self.keys, self.ons, self.vals, self.sep,
                   mutate=mutate)
        self.rec.add(e="call", s=j + 1, x=x,
                     r=S.perform(self.d, self.dbs[j], x, sepkw(self.sep)))

    def version(self):
        x = {"op": "setVal", "k": list(b"__version__"), "o": -1, "i": -1, "v": "",
             "vs": [], "top": []}
        if self.rng.random() < .5:
            v = self.rng.choice(["v1", "v2", "v3"])
            self.d.version = v
            self.rec.add(e="call", s=self.n, x=dict(x, v=v), r=S.R("bool", 1))
        else:
            v = self.d.version
            self.rec.add(e="call", s=self.n, x=dict(x, op="getVal"),
                         r=S.enc_val(v.encode() if isinstance(v, str) else v))

    async def look(self):
        """What storage would show a process that started now."""
        if not hasattr(self, "d"):
            return
        for probe in (True, False):
            b = S.Backend(self.back.persisted)
            try:
                d = await self.W.WebDBer.open("verif", list(self.names), storageOpener=b.open)
            except Exception as ex:
                self.rec.add(e="refuse", what=f"stored data no longer opens: {ex}", r=False)
                return
            got = [d.env.open_db(n, dupsort=probe) for n in self.names]
            fl = [g.dupsort for g in got]
            if probe:
                first = fl
                continue
            for j, (g, fam) in enumerate(zip(got, self.fams)):
                f = "u" if fl[j] != first[j] else ("T" if fl[j] else "F")
                its = [raw_entry(fam, k, v, self.sep) for k, v in d.getTopItemIter(g)]
                self.rec.add(e="look", s=j + 1, b=its, f=f)
            v = d.version
            self.rec.add(e="look", s=self.n, f="skip", b=[] if v is None else [
                {"k": list(b"__version__"), "o": -1, "i": -1, "v": S.V(v.encode())}])

    async def hook(self, handle, phase):
        rng = self.rng
        if phase == "after":
            for i in self.synced:
                pass
            self.landed += 1
        act = rng.random()
        if act < .25:
            await self.look()
        elif act < .55:
            for _ in range(rng.randint(1, 3)):
                self.call(mutate=True)
        elif act < .75:
            await asyncio.sleep(0)
            if rng.random() < .5:
                self.call()
        elif act < .80:
            raise OSError("storage failed " + phase)

    async def one_flush(self):
        fid = self.nflush
        self.nflush += 1
        self.rec.add(e="flushBegin", id=fid)
        before = self.landed
        try:
            n = await self.d.flush()
            ok = True
        except OSError:
            n, ok = 0, False
        return fid, n, ok, before

    async def flush(self, faults=True):
        self.landed = 0
        self.back.hook = self.hook if faults else self.quiet
        if faults and self.rng.random() < .15:
            async def one():
                fid, n, ok, _ = await self.one_flush()
                self.rec.add(e="flushEnd", id=fid, ok=ok, n=0, synced=0)
            await asyncio.gather(one(), one())
        else:
            fid, n, ok, b = await self.one_flush()
            self.rec.add(e="flushEnd", id=fid, ok=ok, n=n, synced=self.landed - b)
        self.back.hook = None

    async def quiet(self, handle, phase):
        if phase == "after":
            self.landed += 1

    def refusals(self):
        def refused(f, *exc):
            try:
                f()
            except exc:
                return True
            except Exception:
                return False
            return False
        self.rec.add(e="refuse", what="opening a store that was not declared",
                     r=refused(lambda: self.d.env.open_db("never."), KeyError))

    async def restart(self, clear=False):
        """Process death: a new process over what storage holds."""
        await self.look()
        self.d.close()
        self.rec.add(e="refuse", what="use of a store after close",
                     r=not self.d.stores and self._refused())
        self.back = S.Backend(self.back.persisted)
        if clear:
            sub = [n for n in self.names if self.rng.random() < .6] or self.names[:1]
            await self.start(clear=True, names=sub)
            self.rec.add(e="reopen", ss=[self.names.index(n) + 1 for n in sub], clear=True)
            await self.look()
            if self.rng.random() < .5:
                for _ in range(4):
                    self.call()
                await self.flush(faults=False)
            await self.look()
            self.d.close()
            self.back = S.Backend(self.back.persisted)
        await self.start()
        self.rec.add(e="reopen", ss=list(range(1, self.n)), clear=False)

    def _refused(self):
        try:
            self.d.env.open_db(self.names[0])
        except KeyError:
            return True
        return False

    async def play(self, steps, faults=True):
        rng = self.rng
        # a neighbour database in the same storage must never be touched
        nb = await self.W.WebDBer.open("verif2", list(self.names), storageOpener=self.back.open)
        db = nb.env.open_db(self.names[0])
        nb.setVal(db, b"n", b"1")
        await nb.flush()
        await self.start()
        base = {k: v for k, v in self.back.persisted.items() if k.startswith("verif2:")}
        for _ in range(steps):
            c = rng.random()
            if c < .80:
                self.call(mutate=True if rng.random() < .75 else None)
            elif c < .90:
                await self.flush(faults and rng.random() < .6)
                await self.look()
            elif c < .93:
                await self.look()
            elif c < .945:
                self.refusals()
            elif c < .985:
                await self.restart()
            else:
                await self.restart(clear=True)
        await self.flush(faults=False)
        await self.look()
        now = {k: v for k, v in self.back.persisted.items() if k.startswith("verif2:")}
        self.rec.add(e="refuse", what="disturbing another database's storage", r=base == now)


def validate(c, traces, what, timeout=600):
    """Check recorded traces against StoreTrace; raises Violation on the first
    disagreement. traces: list of event lists."""
    d = tempfile.mkdtemp(prefix="trace-", dir=scratch())
    p = os.path.join(d, "t.ndjson")
    owner = []
    with open(p, "w") as f:
        for i, t in enumerate(traces):
            for e in t:
                f.write(json.dumps(e) + "\n")
                owner.append(i)
    cfg = cfgtext(constants={"MAXON": S.ABSMAX}, postcondition="Done")
    r = tlc("StoreTrace", cfg, env={"TRACE": p}, workers=1, timeout=timeout
            )
    c.model(r)
    for b in r.lines("@BAD"):
        ln = b["line"] - 1
        i = owner[ln]
        start = owner.index(i)
        raise Violation(f"{what}: {b['clause']}: got {short(b['event'])}; the "
                        f"specification says {short(b['want'])}",
                        clause=b["clause"], event=b["event"], want=b["want"],
                        trace=traces[i][:ln - start + 1])
    done = list(r.lines("@DONE"))
    if not done or done[0]["n"] != len(owner):
        raise MachineryError(f"trace not consumed: {done} of {len(owner)}\n" + tail(r.out))
    c.traces(len(traces))
    c.count("trace_events", len(owner))
    os.remove(p)


def short(x):
    s = json.dumps(x)
    return s if len(s) < 400 else s[:400] + "..."


async def metadata_refusals(w):
    """A store that has records but no settings must not be opened."""
    W = w.W
    b = S.Backend()
    d = await W.WebDBer.open("m", ["s0."], storageOpener=b.open)
    db = d.env.open_db("s0.", dupsort=False)
    d.setVal(db, b"k", b"v")
    await d.flush()
    ns = [n for n in b.persisted if "s0." in n][0]
    rec_key = [k for k, v in b.persisted[ns].items() if "6b" in str(v)]
    # keep only the records, as an old or damaged storage would
    b.persisted[ns] = {k: b.persisted[ns][k] for k in rec_key}
    try:
        await W.WebDBer.open("m", ["s0."], storageOpener=b.open)
        ok = False
    except ValueError:
        ok = True
    w.rec.add(e="refuse", what="opening records whose settings are gone", r=ok)
    try:
        await W.WebDBer.open("m", ["s0."], clear=True, storageOpener=b.open)
        ok = True
    except ValueError:
        ok = False
    w.rec.add(e="refuse", what="(clearing such a store must work)", r=ok)
