"""Checks on message bodies, decided with spec/Body.tla, BodyTrace.tla and BodyMC.tla."""
import json
import multiprocessing
import os
import random
import signal
import sys
import tempfile

import vcommon
from keepchecks import WORKERS
from telchecks import judge
from vcommon import MachineryError, Violation, cfgtext, known_findings, tail, tlc

_JOBS = []

MEANING = {
    "accepted": "a body that is not right is read as if it were",
    "refused": "a body that is right is refused",
    "changed": "what is read is not what was written",
    "rest": "what came after a body is touched, or the body is left",
    "made": "a body is made of fields it cannot have",
    "unmade": "a body cannot be made",
    "other": "what is made is not what it is to be",
    "unreadable": "what came of it is nothing of the kind",
}


class Hang(BaseException):
    """A body is made or read without end."""


def _hang(*_):
    raise Hang("it does not end")


def _lines(j):
    """Lines of a trace, what was thrown, and counts."""
    import logging
    import bodyworld as W
    logging.disable(logging.CRITICAL)
    sys.stdout = open(os.devnull, "w")
    jobs, path = _JOBS[j]
    n = {"lines": 0, "read": 0, "made": 0, "taken": 0}
    threw = []
    signal.signal(signal.SIGALRM, _hang)
    with open(path, "w") as f:
        for kind, seed, what in jobs:
            if len(threw) > 3:
                break
            w = W.World(random.Random(seed))
            try:
                signal.alarm(30)
                ls = [W.altered(w, what, kind)] if "fields" in what else W.trial(w, what, kind)
                signal.alarm(0)
            except (Exception, Hang) as e:          # the world's own code does not fail on a sound tree
                signal.alarm(0)
                threw.append([f"{what.get('t', what)} {kind} #{seed}", f"{type(e).__name__}: {e}"[:300]])
                continue
            for l in ls:
                l["label"] = f"{l['b']['proto']} {l['b']['v']} {l['b']['ilk']} {kind} #{seed}"
                n["lines"] += 1
                n["read" if l["op"] == "read" else "made"] += 1
                n["taken"] += l["took"]
                f.write(json.dumps(l) + "\n")
    return n, threw


def _judge(p):
    return judge(p, "BodyTrace")


def run(c, jobs, **about):
    d = tempfile.mkdtemp(prefix="body-", dir=vcommon.scratch())
    global _JOBS
    _JOBS = [(jobs[j::WORKERS], os.path.join(d, f"b{j}.ndjson")) for j in range(WORKERS)]
    with multiprocessing.get_context("fork").Pool(WORKERS) as pool:
        done = pool.map(_lines, range(WORKERS), chunksize=1)
        verdicts = pool.map(_judge, [p for _, p in _JOBS], chunksize=1)
    for n, threw in done:
        for k, v in n.items():
            c.count(k, v)
        c.traces(n["lines"])
    for bad, n, distinct, generated in verdicts:
        c.count("trace_lines", n)
        c.cov["states"] += distinct
        c.cov["transitions"] += generated
    c.sample(dict(about, lines=sum(n["lines"] for n, _ in done), taken=sum(n["taken"] for n, _ in done)))
    for n, threw in done:
        if threw:
            raise Violation("a body cannot be made or read: " + threw[0][0] + ": " + threw[0][1], failures=threw, **about)
    for bad, *_ in verdicts:
        for b in bad:
            l = b["line"]
            raise Violation(f"{MEANING[b['why']]} ({b['why']}, {l['label']})", label=l["label"], history=[l], **about)


def probe(c):
    """What is known to be read wrongly, looked at by itself."""
    import logging
    import bodyworld as W
    logging.disable(logging.CRITICAL)
    listed = {e["id"] for e in known_findings("C36")}
    w = W.World(random.Random(c.rng.getrandbits(48)))
    said = {"embedded-said": "a credential of version 2 with an expanded section whose embedded said is not right is read as if it were right",
            "native-empty": "a natively serialized exn without receiver, exchange or prior cannot be read back"}

    def is_so(name, so):
        if not so:
            return
        if name not in listed:
            raise Violation(said[name], finding=name)
        c.known.append(said[name])

    n = 0
    for ilk, fields in (("acm", "v t d u i rd s a e r"), ("None", "v d i s a"), ("act", "v t d u i rd s a e r"), ("acg", "v t d u i rd s A e r")):
        for kind in ("JSON", "CBOR", "MGPK"):
            t = ("ACDC", 2, ilk)
            fs = fields.split()
            body = w.contents(t, fs, kind, expand=1)
            f = "A" if ilk == "acg" else "a"
            raw, b = W.write(t, body | {f: W.spoil(w, body[f], False)}, kind)
            n += W.take(t, raw, b, kind, "only", w.rng)["took"]
    is_so("embedded-said", n)
    t = ("KERI", 2, "exn")
    body = w.contents(t, "v t d i ri x p dt r q a".split(), "CESR")
    n = 0
    for f in ("ri", "x", "p"):
        try:
            s = W.make(t, body | {f: ""}, "CESR")
        except Exception:
            continue                        # refusing to make it would be right too
        n += not W.take(t, s.raw, dict(s.sad), "CESR", "only", w.rng)["took"]
    is_so("native-empty", n)


def body(c):
    c.level = "model_checking"
    r = tlc("BodyMC", cfgtext(constants={"EMIT": "TRUE", "Alters": 2}, invariants=["Same", "Guarded"], action_constraints=["Emit"]),
            workers=1, timeout=800, heap="8g")
    if not r.ok:
        raise MachineryError("the machine of altered bodies itself failed:\n" + tail(r.out, 100))
    c.model(r)
    import bodyworld as W
    types = sorted(r.lines("@T"), key=json.dumps)
    hs = sorted({json.dumps(h, sort_keys=True) for h in r.lines("@E")})
    c.count("alterations_enumerated", len(hs))
    c.count("types", len(types))
    if len(types) < 40 or len(hs) < 10000:
        raise MachineryError(f"{len(types)} types and {len(hs)} altered bodies")
    c.rng.shuffle(hs)
    hs = [json.loads(h) for h in hs[:c.pick(9000, 50000)]]
    ks = ("JSON", "CBOR", "MGPK")
    jobs = [(ks[j % 3], c.rng.getrandbits(48), h) for j, h in enumerate(hs)]
    if c.thorough:
        jobs += [(ks[(j + 1) % 3], c.rng.getrandbits(48), h) for j, h in enumerate(hs)]
    run(c, jobs, bodies="altered as enumerated")
    n = c.pick(12, 160)
    jobs = [(k, c.rng.getrandbits(48), t) for t in types for k in W.kinds(t["t"]) for _ in range(n)]
    c.rng.shuffle(jobs)
    run(c, jobs, bodies="of random contents")
    probe(c)


CHECKS = {"C36": body}
