"""Checks on keyed stores, decided with spec/StoreModel.tla and friends."""
import json
import os

import stores as S
from vcommon import Violation, MachineryError, tlc, cfgtext, scratch, tail

A, B, AB, AM = [97], [98], [97, 98], [97, 45]     # a  b  ab  a-


def seq(bs):
    return "<<" + ",".join(map(str, bs)) + ">>"


def seqs(kk):
    return "{" + ", ".join(seq(k) for k in kk) + "}"


UNIVERSE = {
    # family: quick and thorough universes (keys, ordinals, values, max entries)
    "val": dict(q=([A, AB, B], [], ["x", "y"], 3), t=([A, AB, AM, B], [], ["x", "y", "0x"], 4)),
    "on": dict(q=([A, AM], [0, 1, 999, 1000], ["x"], 3), t=([A, AB, AM], [0, 1, 2, 999, 1000], ["x", "y"], 3)),
    "io": dict(q=([A, AM], [], ["x", "y", "z"], 3), t=([A, AB, AM], [], ["x", "y", "z"], 4)),
    "onio": dict(q=([A, AM], [0, 1000], ["x", "y"], 3), t=([A, AM], [0, 1, 1000], ["x", "y"], 4)),
}


def model_edges(c, fam, sep=46, size=None):
    keys, ons, vals, n = UNIVERSE[fam][c.pick("q", "t")]
    n = size or n
    tops = [[], A, AM, A + [sep]]
    defs = (f"MCKeys == {seqs(keys)}\nMCTops == {seqs(tops)}\n")
    name = f"StoreMC_{fam}"
    cfg = cfgtext(constants={
        "FAM": f'"{fam}"', "Keys": "<- MCKeys", "Tops": "<- MCTops",
        "Ons": "{" + ",".join(map(str, ons)) + "}",
        "Vals": "{" + ",".join(f'"{v}"' for v in vals) + "}",
        "MaxSize": n, "SEP": sep, "EMIT": "TRUE", "MAXON": S.ABSMAX},
        invariants=["Shape", "Counts"], properties=["Frame", "Quiet", "AppendFresh"],
        view="View", action_constraints=["Emit"])
    r = tlc_inline(name, "StoreMC", defs, cfg)
    if not r.ok:
        raise MachineryError("the store contract itself failed:\n" + tail(r.out))
    c.model(r)
    return list(r.lines("@E"))


def tlc_inline(name, base, defs, cfg, **kw):
    """TLC on a throw-away module that extends `base` with a few definitions."""
    import shutil
    import tempfile
    import vcommon
    d = tempfile.mkdtemp(prefix="mod-", dir=scratch())
    for f in os.listdir(vcommon.SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(vcommon.SPEC, f), os.path.join(d, f))
    with open(os.path.join(d, name + ".tla"), "w") as f:
        f.write(f"---- MODULE {name} ----\nEXTENDS {base}\n{defs}\n====\n")
    old = vcommon.SPEC
    vcommon.SPEC = d
    try:
        return tlc(name, cfg, **kw)
    finally:
        vcommon.SPEC = old
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------
import random
import storetrace as T
import vcommon


def graph(c, fam, make, sep=None, size=None):
    edges = model_edges(c, fam, sep or 46, size)
    st = make()
    if st.kind == "lmdb":      # empty keys are outside LMDB's key domain
        edges = [e for e in edges if not (e["x"]["k"] == [] and
                 e["x"]["op"] in ("putVal", "setVal", "getVal"))]
    try:
        S.replay_graph(c, fam, edges, st, sep)
    finally:
        st.close()
    e = edges[len(edges) // 2]
    c.sample({"model transition": {"content": e["a"], "call": e["x"], "result": e["r"]}})


def randoms(c, fams, make, n, length, names=None, what="store"):
    st = make()
    trs = []
    try:
        for _ in range(n):
            rec = T.Recorder()
            T.contract_trace(random.Random(c.rng.random()), st, rec, length,
                             c.rng.choice(fams), names)
            trs.append(rec.ev)
    finally:
        st.close()
    T.validate(c, trs, what)
    c.sample({"recorded trace (first calls)": trs[0][:4]})


def worlds(c, n, steps, faults, fams=None, what="durability"):
    trs = []
    for _ in range(n):
        rec = T.Recorder()
        rng = random.Random(c.rng.random())
        w = T.WebWorld(rng, rec, [rng.choice(fams or T.FAMS) for _ in range(rng.randint(1, 3))])
        S.run(w.play(steps, faults))
        trs.append(rec.ev)
    T.validate(c, trs, what)
    c.sample({"recorded history": [e for e in trs[0] if e["e"] != "call"][:8]})


def family(fam):
    def run(c):
        c.assumptions = ["keys do not contain the separator", "TLC and its Json module"]
        graph(c, fam, S.Web, None, c.pick({"onio": 2}.get(fam), None))
        if fam != "val":
            graph(c, fam, S.Web, 124, {"onio": c.pick(1, 2)}.get(fam, 2))
        for _ in range(c.pick(1, 12)):
            randoms(c, [fam], S.Web, 250, 90, what=f"browser store, {fam}")
    return run


ENUM = [o for f in T.FAMS for o in S.FAMOPS[f] if "Iter" in o or "cnt" in o or "Last" in o]


def c05_enumerate(c):
    for fam in T.FAMS:
        names = ([o for o in S.FAMOPS[fam] if o in ENUM] * 3
                 + [o for o in S.FAMOPS[fam] if o in S.MUTATORS] + ["cntTop", "cntAll"])
        graph(c, fam, S.Web, None, 2 if not c.thorough else None)
        for _ in range(c.pick(1, 8)):
            randoms(c, [fam], S.Web, 120, 120, names, what=f"browser store enumeration, {fam}")


def c06_snapshot(c):
    for fam in T.FAMS:
        its = [o for o in S.FAMOPS[fam] if "Iter" in o]
        muts = [o for o in S.FAMOPS[fam] if o in S.MUTATORS]
        names = its * 4 + muts * 2 + ["remTop"]
        for _ in range(c.pick(1, 8)):
            randoms(c, [fam], S.Web, 150, 100, names, what=f"iteration while writing, {fam}")
        graph(c, fam, S.Web, None, 2)


def c07_durable(c):
    for _ in range(c.pick(1, 10)):
        for fam in T.FAMS:
            worlds(c, 30, 120, False, [fam])
        worlds(c, 60, 120, False)


def c08_faults(c):
    import durable
    durable.model(c)
    for _ in range(c.pick(1, 10)):
        worlds(c, 250, 140, True, what="flush under faults and concurrency")


def c09_isolation(c):
    for _ in range(c.pick(1, 10)):
        c09_worlds(c)


def c09_worlds(c):
    trs = []
    for _ in range(120):
        rec = T.Recorder()
        rng = random.Random(c.rng.random())
        w = T.WebWorld(rng, rec, [rng.choice(T.FAMS) for _ in range(3)])

        async def go(w=w, rng=rng):
            await w.start()
            for _ in range(12):
                for _ in range(6):
                    w.call(mutate=True)
                w.refusals()
                if rng.random() < .6:
                    await w.flush(faults=False)
                await w.restart(clear=rng.random() < .6)
        S.run(go())
        S.run(T.metadata_refusals(w))
        trs.append(rec.ev)
    T.validate(c, trs, "store isolation")
    c.sample({"recorded history": [e for e in trs[0] if e["e"] != "call"][:8]})


def c10_backends(c):
    import sys
    sys.path.insert(0, os.path.join(vcommon.VERIF, "shims"))
    c.assumptions = ["the in-memory stand-in for lmdb (shims/lmdb.py) behaves as LMDB",
                     "keys are non-empty and do not contain the separator"]
    for fam in T.FAMS:
        edges = model_edges(c, fam, 46, {"onio": c.pick(2, 3)}.get(fam))
        for make in (S.Web, S.Lmdb):
            st = make()
            ee = [e for e in edges if not (e["x"]["k"] == [] and e["x"]["op"] in (
                "putVal", "setVal", "getVal"))]
            S.replay_graph(c, fam, ee, st)
            st.close()
        c.sample({"model transition": edges[-1]})
    for _ in range(c.pick(1, 10)):
        randoms(c, T.FAMS, S.Lmdb, 400, 90, what="LMDB store")
        randoms(c, T.FAMS, S.Web, 200, 90, what="browser store")


CHECKS = {"C01": family("val"), "C02": family("on"), "C03": family("io"), "C04": family("onio"),
          "C05": c05_enumerate, "C06": c06_snapshot, "C07": c07_durable, "C08": c08_faults,
          "C09": c09_isolation, "C10": c10_backends}
