"""Checks on signed replies and key state notices, decided with spec/Reply.tla, ReplyTrace.tla
and ReplyMC.tla."""
import json
import multiprocessing
import os
import random
import shutil
import sys
import tempfile
import traceback

import vcommon
from telchecks import judge
from vcommon import MachineryError, Violation, cfgtext, tlc, tail

WORKERS = 7
_JOBS = []

MEANING = {
    "forged": "accepted a reply its owner has not signed",
    "rollback": "let a reply replace one that is no earlier",
    "malformed": "accepted a reply that makes no sense",
    "strange": "a record that comes from no reply delivered",
    "stray": "a record of something nobody spoke of",
    "lost": "an accepted reply went away",
    "record": "what is recorded is not what the accepted reply says",
    "evidence": "the accepted reply, or its date, is not stored",
    "unproved": "the stored signatures do not prove the accepted reply",
    "dropped": "did not accept a reply that came with all it needs",
    "stuck": "left a reply in escrow though all it needed had come",
    "notice": "saved a key state notice it should not have",
    "unnoted": "did not save a key state notice it should have",
    "unreadable": "went into a state that has no place in the contract",
}
PROFILE = dict(kinds=dict(end=3, loc=3, wat=2, ksn=1))


def _stats():
    return {"worlds": 0, "replies": 0, "accepted": 0, "deliveries": 0, "crash": []}


def _tally(stats, out):
    stats["worlds"] += 1
    seen = set()
    for l in out:
        stats["deliveries"] += l["e"] == "rpy"
        if l["e"] == "world":
            stats["replies"] += len(l["rp"])
        for ch in l.get("ch", ()):
            if ch["v"]["r"] > 0:
                seen.add((ch["k"], ch["v"]["r"]))
    stats["accepted"] += len(seen)


def _crash(stats, who, ex):
    stats["crash"].append(dict(who, what=f"{type(ex).__name__}: {ex}", tb=traceback.format_exc()[-1500:]))


def _batch(job):
    seeds, over, path = job
    import replyworld as R
    sys.stdout = open(os.devnull, "w")
    stats = _stats()
    with open(path, "w") as f:
        for s in seeds:
            rng = random.Random(s)
            w = R.World(rng, **over)
            st = R.schedule(w)
            home = None
            out = []
            try:
                if any(x["e"] == "restart" for x in st):
                    home = tempfile.mkdtemp(prefix="rplhome-", dir=vcommon.scratch())
                R.record(w, st, out, home=home)
            except Exception as ex:
                _crash(stats, {"world": s}, ex)
            finally:
                if home:
                    shutil.rmtree(home, ignore_errors=True)
            for l in out:
                l["label"] = str(s)
                f.write(json.dumps(l) + "\n")
            _tally(stats, out)
    return stats


def _judge(p):
    return judge(p, "ReplyTrace")


def run_random(c, clauses, over, n):
    n = c.pick(*n)
    seeds = [c.rng.getrandbits(48) for _ in range(n)]
    d = tempfile.mkdtemp(prefix="rpl-", dir=vcommon.scratch())
    k = min(WORKERS, n)
    over = dict(PROFILE, **over)
    jobs = [(seeds[j::k], over, os.path.join(d, f"t{j}.ndjson")) for j in range(k)]
    with multiprocessing.Pool(k) as pool:
        stats = pool.map(_batch, jobs, chunksize=1)
        verdicts = pool.map(_judge, [j[2] for j in jobs], chunksize=1)
    finish(c, clauses, stats, verdicts, {"profile": over})


# ---------------------------------------------------------------- all orders of small worlds
def small(rng, over, size):
    """A world with few messages and the menu of them."""
    import replyworld as R
    over = dict(dict(keys=(1, 1), replies=(2, 3), bad=.05, stranger=.05, multi=0, own=0, old=0, lax=1, bare=.2,
                     kinds=dict(end=1, loc=1, wat=1), partial=.4, tie=.2, wrong=.06, garbage=.15), **over)
    kel = dict(dict(aids=(1, 1), events=(1, 3), fork=0, ixn=.15, keys=(1, 2), weighted=.15), **over.get("kel", {}))
    while True:
        w = R.World(random.Random(rng.getrandbits(48)), **dict(over, kel=kel))
        r = w.rng
        menu = [dict(e="kel", x=x) for x in range(1, len(w.k.ev) + 1)]
        for q in range(1, len(w.rp) + 1):
            ests = w.est[w.rp[q - 1]["p"]]
            d = R.delivery(w, q, r)
            if not d:
                continue
            split = None
            for g in d["tg"]:
                if len(g["sg"]) > 1 and r.random() < .5 and w.k.ev[g["by"] - 1]["kt"] != 1:
                    split = g["sg"][1:]
                    g["sg"] = g["sg"][:1]
            menu.append(d)
            if split:
                menu.append(dict(d, tg=[dict(d["tg"][0], sg=split)]))
            elif len(ests) > 1 and r.random() < .5:
                d = R.delivery(w, q, r, x=r.choice(ests), full=True)
                if d:
                    menu.append(d)
        for m in menu:
            if m["e"] == "rpy":
                if m["cg"]:
                    m.update(cg=m["cg"][:1], tg=[])
                else:
                    m["tg"] = m["tg"][:1]
        n = sum(m["e"] == "rpy" for m in menu)
        if len(menu) <= size and n >= 3:
            break
    v = R.Validator(w)
    seen = []
    try:
        for m in menu:
            if m["e"] == "kel":
                seen.append({"e": "kel", "x": m["x"], "r": 0, "cg": [], "tg": []})
            else:
                # signed once: the same signatures in every schedule
                m["msg"], m["rec"] = v.message(m)
                m["version"] = v.version
                seen.append({"e": "rpy", "x": 0, "r": m["r"], **m["rec"]})
    finally:
        v.close()
    return w, menu, seen


def _replay(j):
    import replyworld as R
    worlds, scripts, path = _JOBS[j]
    sys.stdout = open(os.devnull, "w")
    stats = _stats()
    esc = dict(e="esc", lax=True, loc=False)
    with open(path, "w") as f:
        for wi, h in scripts:
            w, menu, _ = worlds[wi - 1]
            steps = [dict(menu[k - 1]) if k > 0 else dict(esc) for k in h] + [dict(esc)]
            out = []
            try:
                R.record(w, steps, out)
            except Exception as ex:
                _crash(stats, {"schedule": h}, ex)
            for l in out:
                l["label"] = json.dumps([wi, h])
                f.write(json.dumps(l) + "\n")
            _tally(stats, out)
    return stats


def run_orders(c, clauses, over, quick, thorough, size):
    nw, ns = c.pick(quick, thorough)
    ws = [small(c.rng, over, size) for _ in range(nw)]
    d = tempfile.mkdtemp(prefix="rplmc-", dir=vcommon.scratch())
    p = os.path.join(d, "worlds.json")
    with open(p, "w") as f:
        json.dump([dict(w.table(), menu=seen) for w, _, seen in ws], f)
    r = tlc("ReplyMC", cfgtext(constants={"EMIT": "TRUE"}, properties=["Latest"],
                               invariants=["Authentic", "Newest", "Waiting", "Emit"]),
            env={"WORLDS": p}, workers=7, timeout=800, heap="8g")
    if not r.ok:
        raise MachineryError("the reply contract itself failed:\n" + tail(r.out, 100))
    c.model(r)
    hs = sorted((x["w"], x["h"]) for x in r.lines("@H"))
    c.count("schedules_enumerated", len(hs))
    c.rng.shuffle(hs)
    hs = hs[:ns]
    k = min(WORKERS, len(hs))
    global _JOBS
    _JOBS = [(ws, hs[j::k], os.path.join(d, f"s{j}.ndjson")) for j in range(k)]
    with multiprocessing.get_context("fork").Pool(k) as pool:
        stats = pool.map(_replay, range(k), chunksize=1)
        verdicts = pool.map(_judge, [j[2] for j in _JOBS], chunksize=1)
    finish(c, clauses, stats, verdicts, {"orders": over})


def finish(c, clauses, stats, verdicts, about):
    for s in stats:
        for key in ("worlds", "replies", "accepted", "deliveries"):
            c.count(key, s[key])
        c.traces(s["worlds"])
    bad = []
    for b, lines, dn, gn in verdicts:
        bad += b
        c.count("trace_lines", lines)
        c.cov["states"] += dn
        c.cov["transitions"] += gn
    c.sample(dict(about, worlds=sum(s["worlds"] for s in stats), accepted=sum(s["accepted"] for s in stats)))
    crash = [x for s in stats for x in s["crash"]]
    if crash:
        raise Violation(f"the validator raised an exception: {crash[0]['what']}", crash=crash[:3], **about)
    mine = [b for b in bad if b["why"] in clauses or b["why"] == "unreadable"]
    c.count("clause_failures_of_other_properties", len(bad) - len(mine))
    if mine:
        b = mine[0]
        raise Violation(f"{MEANING.get(b['why'], b['why'])} ({b['why']}, {b['x']}, world {b['label']})",
                        failures=mine[:10], **about)


# ---------------------------------------------------------------- the checks
def reply(clauses, *profiles, orders=None, n=(500, 12000)):
    def run(c):
        c.level = "model_checking"
        for over in profiles:
            run_random(c, clauses, over, n)
        for over, size in orders or ():
            run_orders(c, clauses, over, (30, 300), (400, 8000), size)
    return run


NOKSN = dict(end=3, loc=3, wat=2)
RECOVER = dict(kinds=NOKSN, keys=(1, 1), late=.1, partial=.1, garbage=.1, wrong=.05, replies=(3, 6), stranger=.05, bare=0,
               kel=dict(aids=(2, 2), deleg=1, fork=.7, seal=1, ixn=.1, events=(6, 12), nontrans=0, nonext=0))
SAFE = {"forged", "malformed", "strange", "stray", "record", "evidence", "unproved", "lost"}
CHECKS = {
    # signed by the owner, the latest wins
    "C30": reply(SAFE | {"rollback"}, dict(kinds=NOKSN), dict(kinds=NOKSN, keys=(1, 1), replies=(4, 7), late=.1, partial=.1, garbage=.1, wrong=.05,
                                                               kel=dict(aids=(1, 2), events=(4, 9), ixn=.1)),
                 dict(kinds=NOKSN, kel=dict(nontrans=.8, events=(2, 4)), bare=.8, replies=(4, 7)),
                 RECOVER, orders=[(dict(), 6)]),
    # what is complete is accepted, at once or by escrow, in any order, and stays
    "C31": reply(SAFE | {"dropped", "stuck", "rollback"}, dict(kinds=NOKSN, late=.9, partial=.6, old=.1, garbage=.1, wrong=.05, esc=.6),
                 dict(kinds=NOKSN, restart=.15, late=.7, old=.2), dict(kinds=NOKSN, own=.5, lax=.3, old=.2),
                 dict(kinds=NOKSN, kel=dict(fork=.5, ixn=.6)),
                 orders=[(dict(), 6), (dict(partial=.7, kel=dict(keys=(2, 3))), 6)]),
    # key state notices
    "C45": reply({"notice", "unnoted", "stray", "strange"}, dict(kinds=dict(ksn=1), old=.1), dict(kinds=dict(ksn=1), lax=.2, bare=.8, watchers=.2),
                 dict(kinds=dict(ksn=1), late=.9, old=0, esc=.6, kel=dict(fork=.4)), dict(kinds=dict(ksn=1, end=1), own=.4)),
}
