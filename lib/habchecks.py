"""Checks on haberies and their habitats, decided with spec/Hab.tla, HabTrace.tla and HabMC.tla."""
import json
import multiprocessing
import os
import random
import sys
import tempfile

import vcommon
from keepchecks import WORKERS, _do, _stats, finish
from telchecks import judge
from vcommon import MachineryError, Violation, cfgtext, known_findings, tlc, tail

_JOBS = []

MEANING = {
    "names": "the names are not those given, or do not lead to their identifiers",
    "identifiers": "the identifiers there, or those counted own, are not those made",
    "asked": "an event does not say what was asked for",
    "step": "the keystore's keys in use and next are not those of the log",
    "ahead": "the lots ready ahead are not those taken in",
    "unsigned": "what the identifier signs does not verify under its keys",
    "unproved": "another validator does not come to the same state from its messages",
    "lostkey": "a private key that is needed was lost",
    "stale": "a private key is kept that was to be erased",
    "reveal": "revealed other keys than those committed to, or committed to keys used before",
    "refused": "refused what is to be done",
    "allowed": "did what is to be refused",
    "changed": "a failed call changed something",
    "torn": "a crash left it neither as before nor as after",
}


def _batch(job):
    import habworld as H
    seeds, over, path = job
    sys.stdout = open(os.devnull, "w")
    stats = _stats()
    with open(path, "w") as f:
        for s in seeds:
            _do(stats, f, str(s), over.get("crash"), lambda out, d: H.record(H.World(random.Random(s), **over), out, home=d))
    return stats


def _script(j):
    import habworld as H
    hs, path = _JOBS[j]
    sys.stdout = open(os.devnull, "w")
    stats = _stats()
    with open(path, "w") as f:
        for seed, h in hs:
            label = " ".join(f"{o['op']}{o.get('h') or ''}" + (f"!{o['cut']}" if o["cut"] else "") for o in h[1:]) + f" #{seed}"
            _do(stats, f, label, True, lambda out, d: H.script(random.Random(seed), h, out, d))
    return stats


def _judge(p):
    return judge(p, "HabTrace")


def run_random(c, over, n):
    n = c.pick(*n)
    seeds = [c.rng.getrandbits(48) for _ in range(n)]
    d = tempfile.mkdtemp(prefix="hab-", dir=vcommon.scratch())
    k = min(WORKERS, n)
    jobs = [(seeds[j::k], over, os.path.join(d, f"t{j}.ndjson")) for j in range(k)]
    with multiprocessing.Pool(k) as pool:
        stats = pool.map(_batch, jobs, chunksize=1)
        verdicts = pool.map(_judge, [j[2] for j in jobs], chunksize=1)
    finish(c, lambda b: True, stats, verdicts, {"profile": over}, [j[2] for j in jobs], MEANING)


def run_orders(c, depth, full, many, cut):
    r = tlc("HabMC", cfgtext(constants={"EMIT": "TRUE", "Depth": depth, "MaxId": 2, "Full": "TRUE" if full else "FALSE"},
                             properties=["Bound"], invariants=["Named", "Sound", "Apart"], action_constraints=["Emit"]),
            workers=1, timeout=800, heap="8g")
    if not r.ok:
        raise MachineryError("the habery contract itself failed:\n" + tail(r.out, 100))
    c.model(r)
    hs = [x for x in r.lines("@E")]
    c.count("histories_enumerated", len(hs))
    hs = [h for h in hs if len(h) == depth + 1 and any(o["cut"] for o in h[1:]) == cut]
    c.rng.shuffle(hs)
    hs = [(c.rng.getrandbits(48), h) for h in hs[:many]]
    d = tempfile.mkdtemp(prefix="habmc-", dir=vcommon.scratch())
    k = min(WORKERS, len(hs))
    global _JOBS
    _JOBS = [(hs[j::k], os.path.join(d, f"s{j}.ndjson")) for j in range(k)]
    with multiprocessing.get_context("fork").Pool(k) as pool:
        stats = pool.map(_script, range(k), chunksize=1)
        verdicts = pool.map(_judge, [j[1] for j in _JOBS], chunksize=1)
    finish(c, lambda b: True, stats, verdicts, {"depth": depth, "cut": cut}, [j[1] for j in _JOBS], MEANING)


def hab(*profiles, cut, n=(260, 6000)):
    def run(c):
        c.level = "model_checking"
        for over in profiles:
            run_random(c, over, n)
        run_orders(c, 3, *c.pick((False, 700), (True, 15000)), cut)
    return run


def steps(c):
    import habworld as H
    if H.reuse(random.Random(1)):
        what = "an identifier made of secrets taken in, under the name of a deleted one, commits to keys of that one"
        if not any(e["id"] == "name-taken-up-again" for e in known_findings("C38")):
            raise Violation(what)
        c.known.append(what)
    STEPS(c)


STEPS = hab({}, dict(bad=.05, steps=(12, 26), ops=dict(make=3, rotate=10, interact=4, speak=1, reopen=2, delete=1)), cut=False)

CHECKS = {
    "C38": steps,
    "C49": hab(dict(crash=.35), dict(bad=.5, ops=dict(make=5, rotate=9, interact=2, speak=1, reopen=1, delete=2)), cut=True),
}
