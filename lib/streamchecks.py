"""Checks on streams of messages, decided with spec/Stream.tla, StreamTrace.tla and StreamMC.tla."""
import json
import multiprocessing
import os
import random
import signal
import sys
import tempfile

import vcommon
from keepchecks import WORKERS
from telchecks import judge
from vcommon import MachineryError, Violation, cfgtext, tail, tlc

_JOBS = []

MEANING = {
    "lost": "a message is not handed on, or not where it belongs",
    "attached": "a message is handed on with other attachments than it came with",
    "more": "something is handed on that was not there, or out of order",
    "left": "bytes of a whole stream are left",
    "unreadable": "what is handed on is nothing of the kind",
    "local": "what is handed on is called local though it is remote, or the reverse",
}


class Hang(BaseException):
    """A stream is parsed without end."""


def _hang(*_):
    raise Hang("parsing does not end")


def _lines(path, jobs):
    """Lines of a trace, what was thrown, and counts."""
    sys.stdout = open(os.devnull, "w")
    n = {"streams": 0, "units": 0, "calls": 0, "pieces": 0, "damaged": 0}
    threw = []
    signal.signal(signal.SIGALRM, _hang)
    with open(path, "w") as f:
        for label, make in jobs:
            if len(threw) > 3:
                break
            try:
                signal.alarm(40)
                l = make()
                signal.alarm(0)
            except (Exception, Hang) as e:          # the world's own code does not fail on a sound tree
                signal.alarm(0)
                threw.append([label, f"{type(e).__name__}: {e}"[:300]])
                continue
            l["label"] = label
            l["e"] = "op"
            n["streams"] += 1
            n["units"] += len(l["us"])
            n["calls"] += len(l["got"])
            n["pieces"] += l["cut"]
            n["damaged"] += sum(u["fate"] not in ("ok", "proc") for u in l["us"])
            f.write(json.dumps(l) + "\n")
    return n, threw


def _batch(job):
    import streamworld as W
    seeds, over, path = job
    return _lines(path, [(str(s), lambda s=s: W.run(random.Random(s), dict(W.PROFILE, **over))) for s in seeds])


def _script(j):
    import streamworld as W
    hs, path = _JOBS[j]
    return _lines(path, [(json.dumps(h) + f" #{s}", lambda s=s, h=h: W.script(random.Random(s), h)) for s, h in hs])


def _judge(p):
    return judge(p, "StreamTrace")


def finish(c, done, verdicts, about):
    for n, threw in done:
        for k, v in n.items():
            c.count(k, v)
        c.traces(n["streams"])
    for bad, n, distinct, generated in verdicts:
        c.count("trace_lines", n)
        c.cov["states"] += distinct
        c.cov["transitions"] += generated
    c.sample(dict(about, streams=sum(n["streams"] for n, _ in done), handed_on=sum(n["calls"] for n, _ in done)))
    for n, threw in done:
        if threw:
            raise Violation("a stream cannot be made or parsed: " + threw[0][1], failures=threw, **about)
    for bad, *_ in verdicts:
        for b in bad:
            l = b["line"]
            raise Violation(f"{MEANING[b['why']]} ({b['why']}, stream {b['label'][:120]})", label=b["label"], history=[dict(units=l["us"], handed_on=l["got"], left=l["left"],
                            pieces=l["cut"])], **about)


def spread(c, jobs, f, paths, **about):
    with multiprocessing.get_context("fork").Pool(len(paths)) as pool:
        done = pool.map(f, jobs, chunksize=1)
        verdicts = pool.map(_judge, paths, chunksize=1)
    finish(c, done, verdicts, about)


def run_random(c, over, n):
    n = c.pick(*n)
    seeds = [c.rng.getrandbits(48) for _ in range(n)]
    d = tempfile.mkdtemp(prefix="stream-", dir=vcommon.scratch())
    k = min(WORKERS, n)
    jobs = [(seeds[j::k], over, os.path.join(d, f"t{j}.ndjson")) for j in range(k)]
    spread(c, jobs, _batch, [j[2] for j in jobs], profile=over)


def run_cuts(c, few, many):
    r = tlc("StreamMC", cfgtext(constants={"EMIT": "TRUE", "Len1": 3}, invariants=["Rightly", "Alike", "Before"], action_constraints=["Emit"]),
            workers=1, timeout=800, heap="8g")
    if not r.ok:
        raise MachineryError("the parser machine itself failed:\n" + tail(r.out, 100))
    c.model(r)
    hs = list(r.lines("@E"))
    c.count("histories_enumerated", len(hs))
    c.rng.shuffle(hs)
    hs = [(c.rng.getrandbits(48), h) for h in sorted(hs[:c.pick(few, many)], key=json.dumps)]
    d = tempfile.mkdtemp(prefix="streammc-", dir=vcommon.scratch())
    global _JOBS
    _JOBS = [(hs[j::WORKERS], os.path.join(d, f"s{j}.ndjson")) for j in range(WORKERS)]
    spread(c, list(range(WORKERS)), _script, [p for _, p in _JOBS], cuts="enumerated")


def stream(c):
    c.level = "model_checking"
    run_random(c, dict(bad=0), (700, 12000))
    run_random(c, dict(bad=.3), (700, 12000))
    run_cuts(c, 1500, 60000)


CHECKS = {"C33": stream}
