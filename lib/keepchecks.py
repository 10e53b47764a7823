"""Checks on the keystore, decided with spec/Keep.tla, KeepTrace.tla and KeepMC.tla."""
import json
import multiprocessing
import os
import random
import shutil
import sys
import tempfile
import traceback

import vcommon
from telchecks import judge
from vcommon import MachineryError, Violation, cfgtext, known_findings, tlc, tail

WORKERS = 7
_JOBS = []

MEANING = {
    "enmark": "the authentication key on record is not the one in force",
    "root": "the root salt changed",
    "secret": "a secret is not stored encrypted under the authentication key in force",
    "identifiers": "the identifiers of the keystore are not those begun",
    "lots": "the keys in use, or those committed to, are not those of the operations done",
    "manner": "what an identifier's keys are made from changed",
    "lostkey": "a private key that is needed was lost",
    "stale": "a private key is kept that was to be erased",
    "count": "another number of keys than asked for",
    "path": "keys are not made from their salt, stem, tier and place",
    "reveal": "revealed other keys than those committed to",
    "commit": "committed to other keys than those that come next",
    "sign": "a signature is not that of the key asked for, or has another index",
    "refused": "refused what is to be done",
    "allowed": "did what is to be refused",
    "changed": "a failed call changed the keystore",
    "end": "did not say that the replay is at its end",
    "torn": "a crash left the keystore neither as before nor as after",
}
SAFE = {"open", "setae", "unseal"}


def _stats():
    return {"worlds": 0, "ops": 0, "refused": 0, "crashes": 0, "keys": 0, "crash": []}


def _tally(stats, out):
    stats["worlds"] += 1
    for l in out:
        stats["ops"] += l["e"] == "op"
        stats["crashes"] += l["e"] == "crash"
        stats["refused"] += l["e"] == "op" and not l["ok"]
        stats["keys"] += len(l.get("new", ()))


def _do(stats, f, label, home, go):
    out = []
    d = tempfile.mkdtemp(prefix="keephome-", dir=vcommon.scratch()) if home else None
    try:
        go(out, d)
    except Exception as ex:
        stats["crash"].append({"world": label, "what": f"{type(ex).__name__}: {ex}", "tb": traceback.format_exc()[-1500:]})
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    for l in out:
        l["label"] = label
        f.write(json.dumps(l) + "\n")
    _tally(stats, out)


def _batch(job):
    seeds, over, path = job
    import keepworld as K
    sys.stdout = open(os.devnull, "w")
    stats = _stats()
    with open(path, "w") as f:
        for s in seeds:
            _do(stats, f, str(s), over.get("crash"), lambda out, d: K.record(K.World(random.Random(s), **over), out, home=d))
    return stats


def _script(j):
    import keepworld as K
    hs, path = _JOBS[j]
    sys.stdout = open(os.devnull, "w")
    stats = _stats()
    with open(path, "w") as f:
        for seed, h in hs:
            _do(stats, f, json.dumps(h)[:200], False, lambda out, d: K.script(random.Random(seed), h, out))
    return stats


def _judge(p):
    return judge(p, "KeepTrace")


def run_random(c, mine, over, n):
    n = c.pick(*n)
    seeds = [c.rng.getrandbits(48) for _ in range(n)]
    d = tempfile.mkdtemp(prefix="keep-", dir=vcommon.scratch())
    k = min(WORKERS, n)
    jobs = [(seeds[j::k], over, os.path.join(d, f"t{j}.ndjson")) for j in range(k)]
    with multiprocessing.Pool(k) as pool:
        stats = pool.map(_batch, jobs, chunksize=1)
        verdicts = pool.map(_judge, [j[2] for j in jobs], chunksize=1)
    finish(c, mine, stats, verdicts, {"profile": over}, [j[2] for j in jobs])


def run_orders(c, mine, depth, full, many):
    r = tlc("KeepMC", cfgtext(constants={"EMIT": "TRUE", "Depth": depth, "MaxId": 2, "Full": "TRUE" if full else "FALSE"},
                              properties=["Bound", "Kept"], invariants=["Able", "Apart", "Shape"],
                              view="View", action_constraints=["Emit"]), workers=1, timeout=800, heap="8g")
    if not r.ok:
        raise MachineryError("the keystore contract itself failed:\n" + tail(r.out, 100))
    c.model(r)
    hs = [x for x in r.lines("@E")]
    c.count("histories_enumerated", len(hs))
    inner = {json.dumps(h[:-1]) for h in hs}
    hs = [h for h in hs if json.dumps(h) not in inner]
    c.rng.shuffle(hs)
    hs = [(c.rng.getrandbits(48), h) for h in hs[:many]]
    d = tempfile.mkdtemp(prefix="keepmc-", dir=vcommon.scratch())
    k = min(WORKERS, len(hs))
    global _JOBS
    _JOBS = [(hs[j::k], os.path.join(d, f"s{j}.ndjson")) for j in range(k)]
    with multiprocessing.get_context("fork").Pool(k) as pool:
        stats = pool.map(_script, range(k), chunksize=1)
        verdicts = pool.map(_judge, [j[1] for j in _JOBS], chunksize=1)
    finish(c, mine, stats, verdicts, {"depth": depth}, [j[1] for j in _JOBS])


def finish(c, mine, stats, verdicts, about, paths, meaning=MEANING):
    for s in stats:
        for key in ("worlds", "ops", "refused", "crashes", "keys"):
            c.count(key, s[key])
        c.traces(s["worlds"])
    bad = []
    for (b, lines, dn, gn), p in zip(verdicts, paths):
        bad += [dict(x, path=p) for x in b]
        c.count("trace_lines", lines)
        c.cov["states"] += dn
        c.cov["transitions"] += gn
    c.sample(dict(about, worlds=sum(s["worlds"] for s in stats), ops=sum(s["ops"] for s in stats)))
    crash = [x for s in stats for x in s["crash"]]
    if crash:
        raise Violation(f"what is stored could not be read: {crash[0]['what']}", crash=crash[:3], **about)
    got = [b for b in bad if b["why"] == "unreadable" or mine(b)]
    c.count("clause_failures_of_other_properties", len(bad) - len(got))
    if got:
        b = got[0]
        history = [json.loads(x) for x in open(b["path"])]
        history = [{k: l.get(k) for k in ("e", "op", "ok", "ex", "vk", "dk")} for l in history if l["label"] == b["label"]]
        raise Violation(f"{meaning.get(b['why'], b['why'])} ({b['why']}, world {b['label'][:60]})",
                        failures=[{k: v for k, v in x.items() if k != "path"} for x in got[:5]], history=history, **about)


# ---------------------------------------------------------------- whose a failure is
def kind(b):
    return b["line"].get("op", {}).get("op")


def rotation(b):
    return b["why"] in {"reveal", "commit", "lots", "lostkey", "stale", "sign", "count", "end", "identifiers", "torn"} or \
        (b["why"] in {"refused", "allowed"} and kind(b) not in SAFE)


def secrecy(b):
    return b["why"] in {"enmark", "root", "secret"} or (b["why"] in {"refused", "allowed", "changed"} and kind(b) in SAFE)


def whole(b):
    """After a crash or a call that failed."""
    if b["why"] in {"torn", "changed"} or b["line"]["e"] == "crash":
        return True
    lines = [json.loads(x) for x in open(b["path"])]
    before = [l for l in lines[:b["n"]] if l["label"] == b["label"]]
    return any(l["e"] == "crash" or (l["e"] == "op" and not l["ok"]) for l in before)


def made(b):
    return b["why"] in {"path", "manner", "count"}


def collision(c):
    """Two identifiers of one keystore with a key in common (known)."""
    import keepworld as K
    w = K.World(random.Random(1), enc=0, temp=1)
    w.en, w.pidx, w.tier, w.algo, w.temp = 0, 1, None, "salty", True
    s = K.Store(w)
    try:
        a, _ = s.mgr.incept(icount=18, ncount=1, temp=True)
        s.mgr.pidx = 16
        b, _ = s.mgr.incept(icount=1, ncount=1, temp=True)
        nxt = s.ks.sits.get(b[0].qb64).nxt.pubs
        return nxt[0] in [v.qb64 for v in a]
    finally:
        s.close()


def keep(mine, *profiles, orders=True, n=(340, 9000)):
    def run(c):
        c.level = "model_checking"
        for over in profiles:
            run_random(c, mine, over, n)
        if orders:
            run_orders(c, mine, *c.pick((4, False, 1200), (5, True, 30000)))
    return run


def manner(c):
    c.level = "model_checking"
    if collision(c):
        what = "identifiers 1 (of 18 keys) and 16 of one keystore, with default stems, share a key"
        if not any(e["id"] == "salty-path-collision" for e in known_findings("C48")):
            raise Violation(what)
        c.known.append(what)
    keep(made, {}, dict(big=.3, enc=.2, ops=dict(incept=5, rotate=8, replay=1, move=1, open=1)), orders=False)(c)


CHECKS = {
    "C37": keep(rotation, {}, dict(enc=.3, steps=(14, 30), ops=dict(incept=3, rotate=9, replay=5, move=2, sign=4, ingest=3))),
    "C46": keep(secrecy, dict(enc=.8, ops=dict(incept=4, rotate=3, replay=1, ingest=2, setae=5, open=5, unseal=2)), {}),
    "C47": keep(whole, dict(crash=.3, steps=(8, 18)), dict(bad=.5, ops=dict(incept=5, rotate=7, replay=4, move=4, ingest=2, sign=2, open=3, setae=2)),
                orders=False),
    "C48": manner,
}
