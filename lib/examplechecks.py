"""Checks on the worked-example tools, decided with spec/Examples.tla."""
import os
import random

import examples as X
from vcommon import Violation, scratch


def enumerated(c, tools, tagging, maxlen):
    n = 0
    rng = random.Random(c.rng.random())
    for d in X.enum_docs(c, maxlen):
        n += 1
        m = {x["n"]: X.py(x["v"]) for x in d["m"]}
        text = X.render(d["d"], rng)
        want = {"g": d["g"], "er": d["e"], "mi": sorted(d["mi"]), "ex": sorted(d["ex"]),
                "dr": sorted(d["dr"])}
        if not tagging:
            g = tools.guard(m, text)
            if g != want:
                raise Violation(f"drift guard says {g}, the specification says {want}",
                                manifest=m, text=text)
        else:
            after = tools.tag(m, text)
            sh = X.doc_shape(text, after, d["d"])
            if sh != d["tg"]:
                raise Violation(f"tagger made {sh}, the specification says {d['tg']}",
                                manifest=m, text=text, after=after)
            if tools.tag(m, after) != after:
                raise Violation("tagging a tagged document changed it", manifest=m, text=after)
        if n == 500:
            c.sample({"manifest": m, "document": text, "expected": want, "tagged": d["tg"]})
    c.traces(n)


def c11_drift(c):
    """Value-level: equal iff equal, and each differing place is named."""
    tools = X.Tools()
    rng = random.Random(c.rng.random())
    for _ in range(c.pick(1, 10)):
        evs = []
        for _ in range(4000):
            x = X.rand_value(rng, 4)
            y = X.mutate(x, rng) if rng.random() < .85 else x
            evs.append(X.diff_event(tools, x, y, rng))
        for _ in range(800):
            evs.append(X.run_event(tools, *X.rand_case(rng), rng))
        X.validate(c, evs, "drift guard")
        c.sample({"values": [evs[3]["x"], evs[3]["y"]], "equal": evs[3]["ok"]})
    # inputs that cannot be read are neither in sync nor drifted: status 2
    for text in ("[1, 2]", "not json", '"x"'):
        mp, sp = os.path.join(tools.dir, "bad.json"), os.path.join(tools.dir, "s.md")
        with open(mp, "w") as f:
            f.write(text)
        with open(sp, "w") as f:
            f.write("")
        for a in ((mp, sp), (mp + ".absent", sp)):
            rc = _quiet(tools, a)
            if rc != 2:
                raise Violation(f"unusable manifest gave exit status {rc}, not 2", manifest=text)
    with open(mp, "w") as f:
        f.write("{}")
    rc = _quiet(tools, (mp, sp + ".absent"))
    if rc != 2:
        raise Violation(f"unreadable specification gave exit status {rc}, not 2")
    enumerated(c, tools, False, 2)


def _quiet(tools, a):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return tools.chk.main(["--manifest", a[0], "--spec", a[1]])


def c12_documents(c):
    tools = X.Tools()
    enumerated(c, tools, False, c.pick(3, 4))
    rng = random.Random(c.rng.random())
    for _ in range(c.pick(1, 10)):
        evs = [X.run_event(tools, *X.rand_case(rng), rng) for _ in range(2500)]
        X.validate(c, evs, "guard over documents")


def c13_tagger(c):
    tools = X.Tools()
    enumerated(c, tools, True, c.pick(3, 4))
    rng = random.Random(c.rng.random())
    for _ in range(c.pick(1, 10)):
        evs = [X.run_event(tools, *X.rand_case(rng), rng) for _ in range(2500)]
        X.validate(c, evs, "tagger over documents")


CHECKS = {"C11": c11_drift, "C12": c12_documents, "C13": c13_tagger}
