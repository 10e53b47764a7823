"""Checks on thresholds, decided with spec/Thold.tla, TholdTrace.tla and TholdMC.tla."""
import json
import multiprocessing
import os
import random
import sys
import tempfile

import vcommon
from keepchecks import WORKERS
from telchecks import judge
from vcommon import MachineryError, Violation, cfgtext, tail, tlc

_JOBS = []

MEANING = {
    "taken": "an expression that is no threshold is taken",
    "refused": "a threshold is refused",
    "size": "it asks for another number of signers, or is not the same in every form",
    "again": "it is put down as another threshold",
    "enough": "it is met by too few",
    "short": "it is not met by those who meet it",
    "unreadable": "what came of it is nothing of the kind",
}


def _lines(j):
    import tholdworld as W
    sys.stdout = open(os.devnull, "w")
    jobs, path = _JOBS[j]
    n, threw = {"expressions": 0, "taken": 0, "sets": 0}, []
    with open(path, "w") as f:
        for seed, e in jobs:
            if len(threw) > 3:
                break
            r = random.Random(seed)
            e = e or W.expr(r)
            try:
                l = W.trial(e, r)
            except Exception as ex:
                threw.append([json.dumps(e), f"{type(ex).__name__}: {ex}"[:300]])
                continue
            l["label"] = str(W.sith(e))
            n["expressions"] += 1
            n["taken"] += l["took"]
            n["sets"] += len(l["sat"])
            f.write(json.dumps(l) + "\n")
    return n, threw


def _judge(p):
    return judge(p, "TholdTrace")


def run(c, jobs, **about):
    d = tempfile.mkdtemp(prefix="thold-", dir=vcommon.scratch())
    global _JOBS
    _JOBS = [(jobs[j::WORKERS], os.path.join(d, f"t{j}.ndjson")) for j in range(WORKERS)]
    with multiprocessing.get_context("fork").Pool(WORKERS) as pool:
        done = pool.map(_lines, range(WORKERS), chunksize=1)
        verdicts = pool.map(_judge, [p for _, p in _JOBS], chunksize=1)
    for n, threw in done:
        for k, v in n.items():
            c.count(k, v)
        c.traces(n["expressions"])
    for bad, n, distinct, generated in verdicts:
        c.count("trace_lines", n)
        c.cov["states"] += distinct
        c.cov["transitions"] += generated
    c.sample(dict(about, expressions=sum(n["expressions"] for n, _ in done), taken=sum(n["taken"] for n, _ in done)))
    for n, threw in done:
        if threw:
            raise Violation("a threshold cannot be used: " + threw[0][0][:150] + ": " + threw[0][1], failures=threw, **about)
    for bad, *_ in verdicts:
        for b in bad:
            l = b["line"]
            raise Violation(f"{MEANING[b['why']]} ({b['why']}, {l['label'][:150]})", label=l["label"], history=[l], **about)


def thold(c):
    c.level = "model_checking"
    r = tlc("TholdMC", cfgtext(constants={"EMIT": "TRUE", "Extra": "{<<2, 4>>, <<1, 6>>}" if c.thorough else "{}"},
                               invariants=["Together", "Nobody", "Asked", "Same"], properties=["Stays"]), workers=8, timeout=800, heap="8g")
    if not r.ok:
        raise MachineryError("the machine of thresholds itself failed:\n" + tail(r.out, 100))
    c.model(r)
    es = sorted(r.lines("@E"), key=json.dumps)
    c.count("expressions_enumerated", len(es))
    if len(es) < 2000:
        raise MachineryError(f"{len(es)} expressions")
    run(c, [(c.rng.getrandbits(48), e) for e in es], expressions="enumerated")
    run(c, [(c.rng.getrandbits(48), None) for _ in range(c.pick(4000, 60000))], expressions="random")


CHECKS = {"C32": thold}
