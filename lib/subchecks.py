"""C14-C16: typed sub-databases, decided with spec/Sub.tla."""
import json
import os
import random

import subs as U
from storechecks import seqs, tlc_inline
from storetrace import short
from vcommon import MachineryError, Violation, cfgtext, scratch, tail, tlc

A, AM, AB = [97], [97, 45], [97, 46, 122]
UNI = {
    # family: (keys, ordinals, number of values, most entries)
    # classes whose keys must be public keys are left to the random histories
    "val": dict(q=([A, AM, AB], [], 2, 3), t=([A, AM, AB, [98]], [], 3, 4)),
    "on": dict(q=([A, AB], [0, 1, 1000], 1, 3), t=([A, AM, AB], [0, 1, 2], 2, 3)),
    "io": dict(q=([A, AB], [], 3, 3), t=([A, AM, AB], [], 3, 4)),
    "onio": dict(q=([A, AB], [0, 1], 2, 2), t=([A, AM], [0, 1, 2], 2, 3)),
    "dup": dict(q=([A, AB], [], 3, 4), t=([A, AM, AB], [], 3, 5)),
    "iodup": dict(q=([A, AB], [], 3, 3), t=([A, AM, AB], [], 3, 4)),
    "oniodup": dict(q=([A, AB], [0, 1], 2, 2), t=([A, AM], [0, 1, 2], 2, 3)),
}


def edges(c, fam, sep=46):
    keys, ons, nv, size = UNI[fam][c.pick("q", "t")]
    if 1000 in ons:
        keys = [k for k in keys if 46 not in k] or keys[:1]
        keys = keys + [AM]
    if sep != 46:
        keys = [[sep if b == 46 else b for b in k] for k in keys]
    tops = [[], A, A + [sep], AM]
    order = "<<" + ", ".join(f'"v{j}"' for j in range(nv)) + ">>"
    defs = f"MCKeys == {seqs(keys)}\nMCTops == {seqs(tops)}\nMCOrd == {order}\n"
    cfg = cfgtext(constants={
        "FAM": f'"{fam}"', "Keys": "<- MCKeys", "Tops": "<- MCTops",
        "Ons": "{" + ",".join(map(str, ons)) + "}", "Ord": "<- MCOrd",
        "MaxSize": size, "SEP": sep, "EMIT": "TRUE", "MAXON": 1000},
        invariants=["Shape", "Counts", "SetLike"], properties=["Frame", "Quiet"],
        view="View", action_constraints=["Emit"])
    r = tlc_inline(f"SubMC_{fam}", "SubMC", defs, cfg)
    if not r.ok:
        raise MachineryError("the sub-database contract itself failed:\n" + tail(r.out))
    c.model(r)
    return list(r.lines("@E")), nv


def replay(c, fam, kind, es, nv, sep="."):
    """Every explored transition through one real class."""
    rng = random.Random(c.rng.random())
    from keri.db import dbing
    db = dbing.LMDBer(name="subs", temp=True, reopen=True)
    sub = U.Sub(db, kind, "s.", sep, rng)
    names = {f"v{j}": sub.ord[j] for j in range(nv)}   # by rank: the order of the model's values
    back = {b: a for a, b in names.items()}
    ops = set(sub.ops())
    es = [e for e in es if e["x"]["op"] in ops and sub.can(e["x"])]

    def real(x):
        return dict(x, v=names.get(x["v"], ""), vs=[names[v] for v in x["vs"]])

    def do(x):
        r = sub.perform(real(x))
        for it in r["its"]:
            it["v"] = back.get(it["v"], it["v"])
        return r
    by = {}
    for e in es:
        by.setdefault(repr(e["a"]), []).append(e)
    path, frontier = {"[]": []}, ["[]"]
    while frontier:
        nxt = []
        for a in frontier:
            for e in by.get(a, ()):
                b = repr(e["b"])
                if b not in path:
                    path[b] = path[a] + [e]
                    nxt.append(b)
        frontier = nxt
    steps = traces = 0

    def fail(e, got, want, trail):
        raise Violation(f"{kind.name} (sep {sep!r}): {e['x']['op']} answered {short(got)}, the "
                        f"specification says {short(want)}", op=e["x"], before=e["a"], got=got,
                        want=want, trail=[t["x"] for t in trail])
    look = U.op("getTopItemIter")

    def view(entries):
        return U.R("iter", 0, [{"k": e["k"], "o": e["o"], "v": e["v"]} for e in entries])

    def go(p):
        nonlocal steps
        db.remTop(sub.u.sdb)
        for t in p:
            got = do(t["x"])
            steps += 1
            if got != t["r"]:
                fail(t, got, t["r"], p)
    try:
        for a, group in by.items():
            if a not in path:
                continue       # reached only by calls this class lacks
            p = path[a]
            go(p)
            traces += 1
            reads = [e for e in group if e["x"]["op"] not in U.MUT]
            moves = [e for e in group if e["x"]["op"] in U.MUT]
            for e in reads:
                got = do(e["x"])
                steps += 1
                if got != e["r"]:
                    fail(e, got, e["r"], p)
            dirty = False
            for e in moves:
                if dirty:
                    go(p)
                    traces += 1
                got = do(e["x"])
                steps += 1
                if got != e["r"]:
                    fail(e, got, e["r"], p)
                seen = do(look)
                if seen != view(e["b"]):
                    fail(dict(e, x=dict(e["x"], op=e["x"]["op"] + " (content afterwards)")), seen,
                         view(e["b"]), p)
                dirty = e["a"] != e["b"]
    finally:
        db.close(clear=True)
    c.count("replayed_calls", steps)
    c.traces(traces)


def validate(c, traces, what):
    p = os.path.join(scratch(), f"sub-{os.getpid()}-{c.rng.random()}.ndjson")
    owner = []
    with open(p, "w") as f:
        for i, t in enumerate(traces):
            for e in t:
                f.write(json.dumps(e) + "\n")
                owner.append(i)
    r = tlc("SubTrace", cfgtext(constants={"MAXON": 1000}, postcondition="Done"), env={"TRACE": p},
            workers=1, timeout=600)
    c.model(r)
    for b in r.lines("@BAD"):
        ln = b["line"] - 1
        i = owner[ln]
        raise Violation(f"{what}: {b['clause']}: got {short(b['event'])}; the specification says "
                        f"{short(b['want'])}", clause=b["clause"], event=b["event"], want=b["want"],
                        trace=traces[i][:ln - owner.index(i) + 1])
    done = list(r.lines("@DONE"))
    if not done or done[0]["n"] != len(owner):
        raise MachineryError(f"trace not consumed: {done} of {len(owner)}\n" + tail(r.out))
    c.traces(len(traces))
    c.count("trace_events", len(owner))
    os.remove(p)


def check(fams, refuse=False):
    def run(c):
        c.assumptions = ["key parts do not contain the separator",
                         "the in-memory LMDB stand-in behaves as lmdb", "TLC and its Json module"]
        for fam in fams:
            es, nv = edges(c, fam)
            ks = [k for k in U.by_fam(fam) if not k.keys]
            chosen = ks if c.thorough else [c.rng.choice(ks)]
            for kind in chosen:
                replay(c, fam, kind, es, nv)
            es, nv = edges(c, fam, 124)
            replay(c, fam, c.rng.choice(ks), es, nv, "|")
            e = es[len(es) // 2]
            c.sample({"model transition": {"content": e["a"], "call": e["x"], "result": e["r"]}})
        pool = U.by_fam(*fams)
        trs = []
        if refuse:
            ev = [{"e": "world", "subs": []}]
            U.refusals(ev)
            trs.append(ev)
        rounds = c.pick(4, 12)
        for _ in range(rounds):
            ks = list(pool)
            c.rng.shuffle(ks)
            while ks:
                n = c.rng.randint(1, 3)
                group, ks = ks[:n], ks[n:]
                w = U.World(random.Random(c.rng.random()), group)
                trs.append(w.run(c.pick(120, 250) * len(group)))
                w.close()
        validate(c, trs, "typed sub-databases")
        c.sample({"recorded trace (first calls)": trs[-1][:4]})
    return run


CHECKS = {
    "C14": check(["val", "on"], refuse=True),
    "C15": check(["io", "onio"]),
    "C16": check(["dup", "iodup", "oniodup"]),
}
