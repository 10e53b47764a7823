"""Checks on registries and credentials, decided with spec/Tel.tla and TelTrace.tla."""
import json
import multiprocessing
import os
import random
import re
import shutil
import sys
import tempfile
import traceback

import vcommon
from vcommon import MachineryError, Violation, cfgtext, tlc, tail

WORKERS = 7
_JOBS = []

MEANING = {
    "undelivered": "accepted an event never delivered",
    "strange": "a log holds an event that is not its own",
    "registry": "accepted an event of a registry not yet accepted",
    "prior": "accepted an event before those it follows",
    "backing": "accepted a backed event whose registry event is not in force",
    "source": "accepted an event of its own registry from afar, or another's as its own",
    "taken": "accepted an event in a place already taken",
    "place": "accepted an event whose sequence number has no place in its log",
    "backers": "accepted an impossible backer configuration",
    "kind": "accepted a kind of event the registry does not have",
    "chain": "accepted an event that does not follow the event it names",
    "foreign": "accepted a revocation in a registry that did not issue",
    "anchor": "accepted an event its issuer has not sealed",
    "toad": "accepted an event without enough of its backers",
    "lost": "an accepted event or credential went away",
    "other": "a delivery changed what it should not have",
    "log": "a log is not what was accepted",
    "state": "the state of a registry is not the one the accepted events make",
    "record": "the stored state of a registry is not the one the accepted events make",
    "status": "the state of a credential is not the one the accepted events make",
    "index": "the indices of saved credentials are not those of the saved credentials",
    "forged": "saved a credential that does not verify",
    "unsaved": "did not save a credential for which everything was there",
    "dropped": "did not accept an event for which everything was there",
    "stuck": "left an event in escrow though everything it needed had come",
    "badanchor": "stored an anchor that does not seal the event",
    "lostsig": "did not store the backer signatures an event was accepted on",
    "strangesig": "stored a backer signature never delivered",
    "clone": "a replay of the logs did not come out the same",
    "unreadable": "went into a state that has no place in the contract",
}


def _batch(job):
    seeds, over, path, modes = job
    import telworld as T
    sys.stdout = open(os.devnull, "w")      # the validators print
    stats = {"worlds": 0, "events": 0, "accepted": 0, "saved": 0, "deliveries": 0, "crash": []}
    with open(path, "w") as f:
        for s in seeds:
            rng = random.Random(s)
            w = T.World(rng, **over)
            st = T.schedule(w)
            mode, home = rng.choice(modes), None
            out = []
            try:
                if mode in ("restart", "crash"):
                    home = tempfile.mkdtemp(prefix="telhome-", dir=vcommon.scratch())
                if mode == "restart":
                    st = T.with_restarts(st, rng)
                elif mode == "crash":
                    st = T.with_crash(st, T.commits(w, st, home=home), rng)
                elif mode == "clone":
                    st = st + [dict(e="clone", gv=rng.choice((1, 2)))]
                T.record(w, st, out, home=home)
            except Exception as ex:
                stats["crash"].append({"world": s, "what": f"{type(ex).__name__}: {ex}", "tb": traceback.format_exc()[-1500:]})
            finally:
                if home:
                    shutil.rmtree(home, ignore_errors=True)
            stats["worlds"] += 1
            last = {}
            for l in out:
                l["label"] = str(s)
                f.write(json.dumps(l) + "\n")
                stats["deliveries"] += l["e"] in ("tel", "cred")
                if l["e"] == "world":
                    stats["events"] += len(l["tev"]) + len(l["cr"])
                for ch in l.get("tl", ()) if l["e"] not in ("clone",) else ():
                    last[ch["k"]] = len(ch["v"])
                if "sv" in l:
                    last["sv"] = len(l["sv"])
            stats["saved"] += last.pop("sv", 0)
            stats["accepted"] += sum(last.values())
    return stats


def judge(p, module="TelTrace"):
    with open(p) as f:
        lines = f.readlines()
    bad = []
    if not lines:
        return bad, 0, 0, 0
    try:
        r = tlc(module, cfgtext(postcondition="Done"), env={"TRACE": p}, workers=1, timeout=800)
    except MachineryError as ex:
        if "when TLC was evaluating" not in str(ex):
            raise
        m = re.findall(r"/\\ i = (\d+)", str(ex))
        l = json.loads(lines[min(int(m[-1]) - 1 if m else 0, len(lines) - 1)])
        return [dict(label=l.get("label"), why="unreadable", x=l.get("x", 0), line=l)], 0, 0, 0
    done = list(r.lines("@DONE"))
    if not done or done[0]["n"] != len(lines):
        raise MachineryError(f"{module} stopped after {done} of {len(lines)} lines:\n" + tail(r.out))
    for b in r.lines("@BAD"):
        l = json.loads(lines[b["line"] - 1])
        for y in b["bad"]:
            bad.append(dict(label=l.get("label"), n=b["line"], why=y["why"], x=y["x"], line=l))
    return bad, len(lines), r.distinct, r.generated


def run_random(c, clauses, over, n, modes):
    n = c.pick(*n)
    seeds = [c.rng.getrandbits(48) for _ in range(n)]
    d = tempfile.mkdtemp(prefix="tel-", dir=vcommon.scratch())
    k = min(WORKERS, n)
    jobs = [(seeds[j::k], over, os.path.join(d, f"t{j}.ndjson"), modes) for j in range(k)]
    with multiprocessing.Pool(k) as pool:
        stats = pool.map(_batch, jobs, chunksize=1)
        verdicts = pool.map(judge, [j[2] for j in jobs], chunksize=1)
    finish(c, clauses, stats, verdicts, {"profile": over})


# ---------------------------------------------------------------- all orders of small worlds
def small(rng, over, size, clean):
    """A world with few messages, and the menu of them: (world, steps, steps as TelMC sees them)."""
    import telworld as T
    if clean:
        over = dict(dict(bad=0, foreign=0, twin=0, badanchor=0, noanchor=0, badcouple=0, nocouple=0), **over)
    over = dict(over, supersede=0, own=0)
    while True:
        r = random.Random(rng.getrandbits(48))
        w = T.World(r, **over)
        tel = [T.deliver(w, x) for x in range(1, len(w.tev) + 1)]
        if not clean and tel:
            tel += [T.deliver(w, r.choice(tel)["x"]) for _ in range(r.randint(0, 1))]
        if clean:
            # one delivery may bring an event's signatures in two parts
            for st in list(tel):
                if len(st["wg"]) > 1 and r.random() < .5:
                    n = r.randint(1, len(st["wg"]) - 1)
                    tel += [dict(st, wg=st["wg"][n:])]
                    st["wg"] = st["wg"][:n]
                    break
        menu = [dict(e="kel", k=k) for k in range(1, len(w.kev) + 1)] + tel
        menu += [dict(e="cred", c=c) for c in range(1, len(w.cr) + 1) if r.random() < .5]
        kels = len(w.kev)
        if len(menu) <= size and len(menu) - kels >= 2:
            break
    v = T.Validator(w)
    try:
        seen = []
        for st in menu:
            if st["e"] == "kel":
                seen.append({"e": "kel", "k": st["k"], "x": 0, "c": 0, "cp": {"k": 0, "s": 0}, "wg": [], "loc": False})
            else:
                seen.append(dict({"e": st["e"], "k": 0, "x": 0, "c": 0, "cp": {"k": 0, "s": 0}, "wg": [], "loc": False},
                                 **v.message(st)[1]))
    finally:
        v.close()
    return w, menu, seen


def _replay(j):
    import telworld as T
    worlds, scripts, path = _JOBS[j]
    sys.stdout = open(os.devnull, "w")
    stats = {"worlds": 0, "events": 0, "accepted": 0, "saved": 0, "deliveries": 0, "crash": []}
    back = {0: dict(e="tesc"), -1: dict(e="cesc")}
    with open(path, "w") as f:
        for wi, h in scripts:
            w, menu, _ = worlds[wi - 1]
            steps = [dict(e="sch", c=n) for n in range(1, T.NSCHEMA + 1)]
            steps += [dict(menu[k - 1]) if k > 0 else dict(back[k]) for k in h] + [dict(e="tesc"), dict(e="cesc")]
            out = []
            try:
                T.record(w, steps, out)
            except Exception as ex:
                stats["crash"].append({"schedule": h, "what": f"{type(ex).__name__}: {ex}", "tb": traceback.format_exc()[-1500:]})
            stats["worlds"] += 1
            for l in out:
                l["label"] = json.dumps([wi, h])
                f.write(json.dumps(l) + "\n")
                stats["deliveries"] += l["e"] in ("tel", "cred")
    return stats


def run_orders(c, clauses, over, quick, thorough, size, clean=False):
    import telworld as T
    nw, ns = c.pick(quick, thorough)
    ws = [small(c.rng, over, size, clean) for _ in range(nw)]
    d = tempfile.mkdtemp(prefix="telmc-", dir=vcommon.scratch())
    p = os.path.join(d, "worlds.json")
    with open(p, "w") as f:
        json.dump([dict(w.table(), nsc=T.NSCHEMA, menu=seen) for w, _, seen in ws], f)
    r = tlc("TelMC", cfgtext(constants={"EMIT": "TRUE"}, properties=["Grow"],
                             invariants=["Chains", "Sealed", "BackersSound", "Kinds", "Saved", "Confluent", "Emit"]),
            env={"WORLDS": p}, workers=7, timeout=800, heap="8g")
    if not r.ok:
        raise MachineryError("the registry contract itself failed:\n" + tail(r.out, 100))
    c.model(r)
    hs = sorted((x["w"], x["h"]) for x in r.lines("@H"))
    c.count("schedules_enumerated", len(hs))
    c.rng.shuffle(hs)
    hs = hs[:ns]
    k = min(WORKERS, len(hs))
    global _JOBS
    _JOBS = [(ws, hs[j::k], os.path.join(d, f"s{j}.ndjson")) for j in range(k)]
    with multiprocessing.get_context("fork").Pool(k) as pool:
        stats = pool.map(_replay, range(k), chunksize=1)
        verdicts = pool.map(judge, [j[2] for j in _JOBS], chunksize=1)
    finish(c, clauses, stats, verdicts, {"orders": over})


def finish(c, clauses, stats, verdicts, about):
    for s in stats:
        for key in ("worlds", "events", "accepted", "saved", "deliveries"):
            c.count(key, s[key])
        c.traces(s["worlds"])
    bad = []
    for b, lines, dn, gn in verdicts:
        bad += b
        c.count("trace_lines", lines)
        c.cov["states"] += dn
        c.cov["transitions"] += gn
    c.sample(dict(about, worlds=sum(s["worlds"] for s in stats), accepted=sum(s["accepted"] for s in stats),
                  saved=sum(s["saved"] for s in stats)))
    crash = [x for s in stats for x in s["crash"]]
    if crash:
        raise Violation(f"the validator raised an exception: {crash[0]['what']}", crash=crash[:3], **about)
    mine = [b for b in bad if b["why"] in clauses or b["why"] == "unreadable"]
    c.count("clause_failures_of_other_properties", len(bad) - len(mine))
    if mine:
        b = mine[0]
        raise Violation(f"{MEANING.get(b['why'], b['why'])} ({b['why']}, {b['x']}, world {b['label']})",
                        failures=mine[:10], **about)


# ---------------------------------------------------------------- the checks
ALL = frozenset(MEANING)
SHAPE = {"undelivered", "strange", "lost", "other", "log"}
LOGS = SHAPE | {"registry", "prior", "source", "taken", "place", "kind", "chain"}


def tel(clauses, *profiles, modes=("plain",), orders=None, n=(250, 4000)):
    def run(c):
        c.level = "model_checking"
        for over in profiles:
            run_random(c, clauses, over, n, modes)
        for over, size, clean in orders or ():
            run_orders(c, clauses, over, (20, 120), (250, 4000), size, clean=clean)
    return run


REGS = dict(regs=(1, 2), vrts=(2, 4), creds=(1, 2), backed=.9, twin=.4)
CREDS = dict(creds=(3, 7), regs=(1, 2), vrts=(0, 1), backed=.2, edges=.9, badanchor=.05, noanchor=.03, bad=.1, badcouple=.08)
CHECKS = {
    # registries and their backers
    "C39": tel(LOGS | {"backers", "state", "record", "toad", "lostsig", "strangesig", "dropped", "stuck"},
               dict(), dict(REGS, bad=.25, noise=.6), dict(REGS, bad=.05, badcouple=.05, partial=.7, noise=.5, badanchor=.05),
               orders=[(dict(aids=(1, 1), regs=(1, 1), vrts=(1, 2), creds=(0, 1), backed=1, edges=0, partial=.6, revoke=.3), 7, True),
                       (dict(aids=(1, 1), regs=(1, 1), vrts=(1, 2), creds=(0, 1), backed=1, edges=0, partial=.6), 7, False)]),
    # issued and revoked, once, there
    "C40": tel(LOGS | {"foreign", "backing", "state", "status", "dropped", "stuck"},
               dict(), dict(creds=(2, 5), regs=(1, 3), vrts=(0, 1), revoke=.9, foreign=.4, twin=.4, bad=.2),
               dict(creds=(2, 4), regs=(1, 2), vrts=(1, 3), revoke=.9, backed=.9, bad=.1, badcouple=.05, badanchor=.05),
               dict(own=.5, revoke=.9, creds=(2, 4)),
               orders=[(dict(aids=(1, 1), regs=(1, 1), vrts=(0, 1), creds=(1, 1), revoke=.9, edges=0, backed=.5), 7, True),
                       (dict(aids=(1, 2), regs=(1, 2), vrts=(0, 0), creds=(1, 1), revoke=.9, edges=0, foreign=.5, twin=.4), 7, False)]),
    # sealed by the issuer's key events
    "C41": tel(SHAPE | {"anchor", "badanchor", "dropped", "stuck", "source", "registry"},
               dict(badanchor=.4, badcouple=.4), dict(supersede=2, dup=.6, badanchor=.2, kelfirst=.1), dict(own=.3, badanchor=.4, badcouple=.3, backed=.2),
               orders=[(dict(aids=(1, 2), regs=(1, 1), vrts=(0, 0), creds=(1, 1), edges=0, backed=0, badanchor=.4, badcouple=.4), 7, False)]),
    # credentials verified
    "C42": tel({"forged", "unsaved", "index", "lost", "other", "status"},
               dict(CREDS), dict(CREDS, revoke=.7), dict(CREDS, forge=.3, foreign=.3), dict(CREDS, edges=.9, latesch=.8, ops=[None, "NI2I"], forge=.02), dict(),
               orders=[(dict(aids=(1, 2), regs=(1, 1), vrts=(0, 0), creds=(2, 2), edges=.9, backed=0, revoke=.3, forge=.1), 8, True)]),
    # in any order it comes to the same
    "C43": tel(ALL - {"clone", "lostsig", "strangesig", "badanchor"},
               dict(kelfirst=.1, shuffle=1, bad=.05), dict(kelfirst=.1, shuffle=1, bad=.05, backed=.9, partial=.7, vrts=(1, 3), badcouple=.05),
               dict(CREDS, kelfirst=.1, shuffle=1),
               orders=[(dict(aids=(1, 2), regs=(1, 2), vrts=(0, 1), creds=(1, 2), edges=.5), 8, True),
                       (dict(aids=(1, 1), regs=(1, 1), vrts=(0, 1), creds=(1, 1), edges=0, backed=.5, bad=.2), 7, False)]),
    # restarts, crashes, replay
    "C44": tel(ALL, dict(), dict(REGS, bad=.1), dict(REGS, bad=0, badcouple=0, noanchor=0, twin=0, vrts=(0, 1), big=.7, partial=.1, long=.05), dict(CREDS), dict(own=.4, backed=.5),
               modes=("restart", "crash", "crash", "clone"), n=(150, 3000)),
}
