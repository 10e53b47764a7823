"""Threshold expressions for spec/Thold.tla, given to the real Tholder in every form it takes."""
import json
from fractions import Fraction
from itertools import combinations

import keri_env  # noqa: F401
from keri.core.coring import Tholder

DENS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15)


def text(w):
    return str(w[0]) if w[1] == 1 else f"{w[0]}/{w[1]}"


def element(x):
    return {text(x["w"]): [text(w) for w in x["in"]]} if x["nest"] else text(x["w"])


def sith(e):
    if e["kind"] == "number":
        return "%x" % e["n"] if e["n"] >= 0 else str(e["n"])
    return [[element(x) for x in c] for c in e["cs"]]


def unweight(s):
    n, _, d = s.partition("/")
    return [int(n), int(d or 1)]


def unsith(s):
    """An expression of what a Tholder puts down."""
    if isinstance(s, str):
        return dict(kind="number", n=int(s, 16), cs=[])
    if not all(isinstance(c, list) for c in s):
        s = [s]
    return dict(kind="weights", n=0, cs=[[dict(w=unweight(x), nest=False, **{"in": []}) if isinstance(x, str) else
                                          dict(w=unweight(list(x)[0]), nest=True, **{"in": [unweight(w) for w in list(x.values())[0]]}) for x in c] for c in s])


def forms(e, rng):
    """Ways to give an expression."""
    s = sith(e)
    if e["kind"] == "number":
        return [dict(sith=s), dict(sith=e["n"]), dict(thold=e["n"]), dict(sith=s.upper())]
    out = [dict(sith=s), dict(sith=json.dumps(s)), dict(sith=tuple(tuple(c) for c in s))]
    if len(s) == 1:
        out += [dict(sith=s[0]), dict(sith=json.dumps(s[0]))]
    if e["cs"] and all(w[1] for c in e["cs"] for x in c for w in [x["w"]] + x["in"]):
        out.append(dict(thold=[[(Fraction(*x["w"]), [Fraction(*w) for w in x["in"]]) if x["nest"] else Fraction(*x["w"]) for x in c] for c in e["cs"]]))
    return out


def trial(e, rng):
    l = dict(e=e, took=True, size=0, again=[], sat=[])
    fs = forms(e, rng)
    ts = []
    for f in fs:
        if "thold" in f and e["kind"] == "weights" and any(not 0 <= w[0] <= w[1] for c in e["cs"] for x in c for w in [x["w"]] + x["in"]):
            continue                         # weights are checked as they are read
        try:
            ts.append(Tholder(**f))
        except Exception:
            ts.append(None)
    if None in ts:
        # some form refused: all are to be, or none
        l["took"] = False if not any(ts) else sum(t is None for t in ts) * 2 > len(ts)
        if any(ts):
            l["mixed"] = [str(f) for f, t in zip(fs, ts) if t is None]
            l["size"] = -1
            l["took"] = True
        return l
    t = ts[0]
    lim = t.limen
    rest = b"-AAB"
    raw = bytearray(lim + rest)
    back = Tholder(limen=raw, strip=True)
    ok = bytes(raw) == rest and back.limen == lim and json.loads(t.json) == t.sith and t.weighted == (e["kind"] == "weights")
    ok = ok and (t.num == e["n"] if e["kind"] == "number" else t.num is None)
    ts += [back, Tholder(limen=lim.decode()), Tholder(sith=t.sith), Tholder(sith=t.json if t.weighted else t.sith), Tholder(thold=t.thold)]
    l["size"] = t.size if ok and all(x.size == t.size for x in ts) else -2
    l["again"] = [unsith(x.sith) for x in ts]
    n = t.size if t.weighted else 6
    if n <= 6:
        sets = [list(s) for k in range(n + 1) for s in combinations(range(n), k)]
    else:
        sets = [rng.sample(range(n), rng.randint(0, n)) for _ in range(40)] + [list(range(n))]
    for s in sets:
        rng.shuffle(s)
        if s and rng.random() < .3:
            s = s + [rng.choice(s)] * rng.randint(1, 4)
        if rng.random() < .2 and t.weighted:
            s = s + [n + rng.randint(0, 3)]
        x = rng.choice(ts)
        g = rng.choice([list, tuple, set])(s)
        l["sat"].append(dict(at=s, yes=bool(x.satisfy(indices=g))))
    return l


def expr(rng):
    """A random expression, valid or not."""
    if rng.random() < .15:
        return dict(kind="number", n=rng.choice([0, 1, 2, 5, 15, 16, 17, 255, 256, 4096, 70000, -1, -16]), cs=[])

    def weight(bad):
        d = rng.choice(DENS)
        if rng.random() < bad:
            return rng.choice([[-1, d], [d + 1, d], [2, 1], [-3, 1]])
        d = rng.choice([d, 2, 1, 3])
        return [rng.randint(0, d) if rng.random() < .5 else 1, d]
    bad = rng.choice([0, 0, 0, .1])
    cs = []
    for _ in range(rng.randint(0 if rng.random() < .05 else 1, 4)):
        c = []
        for _ in range(rng.randint(0 if rng.random() < .05 else 1, 6)):
            nest = rng.random() < .3
            c.append(dict(w=weight(bad), nest=nest, **{"in": [weight(bad) for _ in range(rng.randint(1, 4))] if nest else []}))
        if rng.random() < .7:                       # perhaps make it enough
            c += [dict(w=[1, 2], nest=False, **{"in": []})] * 2
            for x in c:
                if x["nest"]:
                    x["in"] += [[1, 2], [1, 2]]
        cs.append(c)
    return dict(kind="weights", n=0, cs=cs)
