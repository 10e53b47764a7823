"""Checks on the key event log validator, decided with spec/Kel.tla, KelTrace.tla and KelMC.tla."""
import json
import multiprocessing
import os
import random
import re
import shutil
import tempfile
import traceback

import vcommon
from vcommon import MachineryError, Violation, cfgtext, tlc, tail

WORKERS = 7


# ---------------------------------------------------------------- playing worlds
def play(world, steps, att=True, **kwa):
    """Trace lines of steps played to a fresh real validator."""
    import kelworld as K
    out = []
    try:
        K.record(world, steps, out, att=att, **kwa)
    except Exception as ex:      # the validator let something escape
        out.append({"e": "raised", "what": f"{type(ex).__name__}: {ex}", "tb": traceback.format_exc()[-1500:]})
    return out


def _batch(job):
    """A worker's share: worlds and schedules from seeds."""
    seeds, over, path, modes = job
    import kelworld as K
    stats = {"worlds": 0, "events": 0, "accepted": 0, "deliveries": 0, "crash": []}
    with open(path, "w") as f:
        for s in seeds:
            rng = random.Random(s)
            w = K.make_world(rng, **over)
            st = K.schedule(w, rng)
            mode, home = rng.choice(modes), None
            if mode in ("restart", "crash"):
                home = tempfile.mkdtemp(prefix="kelhome-", dir=vcommon.scratch())
            if mode == "restart":
                st = K.with_restarts(st, rng)
            elif mode == "crash":
                try:
                    st = K.with_crash(w, st, K.commits(w, st, home=home), rng)
                except Exception:
                    pass        # played below without the crash, and reported there
            elif mode == "clone":
                st = st + [dict(e="clone", gv=rng.choice((1, 2)))]
            put(f, play(w, st, home=home), stats, s)
            if home:
                shutil.rmtree(home, ignore_errors=True)
    return stats


def put(f, lines, stats, label):
    stats["worlds"] += 1
    for l in lines:
        if l["e"] == "raised":
            stats["crash"].append({"world": label, **l})
            continue
        l["label"] = str(label)
        f.write(json.dumps(l) + "\n")
        stats["accepted"] += len(l.get("acc", ()))
        stats["deliveries"] += l["e"] in ("ev", "rct")
        stats["events"] += len(l["ev"]) if l["e"] == "world" else 0


def judge(paths):
    """KelTrace's verdict on trace files: [(label, line, clause, event)], lines read."""
    bad, n, res = [], 0, []
    for p in paths:
        with open(p) as f:
            lines = f.readlines()
        if not lines:
            continue
        try:
            r = tlc("KelTrace", cfgtext(postcondition="Done"), env={"TRACE": p}, workers=1, timeout=600)
        except MachineryError as ex:
            if "when TLC was evaluating" not in str(ex):
                raise
            m = re.findall(r"/\\ i = (\d+)", str(ex))
            at = int(m[-1]) - 1 if m else 0
            l = json.loads(lines[min(at, len(lines) - 1)])
            bad.append(dict(label=l.get("label"), why="unreadable", x=l.get("x", 0), line=l))
            continue
        done = list(r.lines("@DONE"))
        if not done or done[0]["n"] != len(lines):
            raise MachineryError(f"KelTrace stopped after {done} of {len(lines)} lines:\n" + tail(r.out))
        n += len(lines)
        res.append(r)
        for b in r.lines("@BAD"):
            l = json.loads(lines[b["line"] - 1])
            for y in b["bad"]:
                bad.append(dict(label=l.get("label"), why=y["why"], x=y["x"], line={k: v for k, v in l.items() if k != "ev"}))
    return bad, n, res


def conclude(c, clauses, bad, crash, what, over=None):
    if crash:
        raise Violation(f"the validator raised an exception: {crash[0]['what']}", profile=over, crash=crash[:3])
    mine = [b for b in bad if b["why"] in clauses or b["why"] == "unreadable"]
    c.count("clause_failures_of_other_properties", len(bad) - len(mine))
    if mine:
        b = mine[0]
        raise Violation(f"{MEANING.get(b['why'], b['why'])} ({b['why']}, event {b['x']}, {what} {b['label']})",
                        profile=over, failures=mine[:10])


MEANING = {
    "place": "accepted an event whose sequence number has no place in its log",
    "chain": "accepted an event that does not follow the event it names",
    "again": "accepted an event twice",
    "order": "accepted an event before the events it depends on",
    "kel": "the key event log is not the one the accepted events make",
    "fel": "the first seen log is not the order of acceptance",
    "state": "the key state is not the one the accepted events make",
    "record": "the stored key state is not the one the accepted events make",
    "other": "delivering one event changed another",
    "keys": "accepted an event with an unsatisfiable threshold",
    "wits": "accepted an event with an impossible witness configuration",
    "nontrans": "accepted an event of an identifier that can have no more",
    "trait": "accepted an event its identifier's configuration forbids",
    "malformed": "accepted an event that is not well formed",
    "deleg": "accepted a delegation mismatch",
    "sigs": "accepted an event whose signing threshold is not met",
    "prerot": "accepted a rotation that does not satisfy the prior next threshold",
    "toad": "accepted an event without enough of its witnesses",
    "source": "accepted a protected event from a remote source",
    "seal": "accepted a delegated event its delegator has not sealed",
    "rank": "accepted a superseding delegated rotation that does not outrank",
    "dropped": "did not accept an event for which everything was there",
    "stuck": "left an event in escrow though everything it needed had come",
    "dupl": "did not record a likely duplicitous event",
    "badsig": "stored a signature that is not by a current key",
    "badwig": "stored a witness signature that is not by a witness",
    "strangesig": "stored a signature that was never delivered",
    "badrct": "stored a receipt that was never delivered or is false",
    "badtrct": "stored a transferable receipt that is false or not by the event it names",
    "lostsig": "did not store a good signature or receipt that came for an accepted event",
    "clone": "a log replayed as first seen did not come out the same",
    "unreadable": "went into a state that has no place in the contract",
    "srcloc": "recorded a local source for an event never delivered locally",
}


def run_random(c, clauses, over, quick, thorough, modes=("plain",)):
    n = c.pick(quick, thorough)
    seeds = [c.rng.getrandbits(48) for _ in range(n)]
    d = tempfile.mkdtemp(prefix="kel-", dir=vcommon.scratch())
    k = min(WORKERS, n)
    jobs = [(seeds[j::k], over, os.path.join(d, f"t{j}.ndjson"), modes) for j in range(k)]
    with multiprocessing.Pool(k) as pool:
        stats = pool.map(_batch, jobs, chunksize=1)
        verdicts = pool.map(_judge1, [[j[2]] for j in jobs], chunksize=1)
    finish(c, clauses, stats, verdicts, "world", over)


def _judge1(paths):
    bad, n, res = judge(paths)
    return bad, n, sum(r.distinct for r in res), sum(r.generated for r in res)


def finish(c, clauses, stats, verdicts, what, over):
    for s in stats:
        for k in ("worlds", "events", "accepted", "deliveries"):
            c.count(k, s[k])
        c.traces(s["worlds"])
    bad = []
    for b, n, dn, gn in verdicts:
        bad += b
        c.count("trace_lines", n)
        c.cov["states"] += dn
        c.cov["transitions"] += gn
    c.sample({"profile": over, "worlds": sum(s["worlds"] for s in stats), "accepted": sum(s["accepted"] for s in stats)})
    conclude(c, clauses, bad, [x for s in stats for x in s["crash"]], what, over)


# ---------------------------------------------------------------- all orders of small worlds
def menu(world, rng, size, clean):
    """Deliveries to make, each once, in any order."""
    import kelworld as K
    out = []
    o = dict(world.o)
    for x in range(1, len(world.ev) + 1):
        full = world.honest_sigs(x)
        wl = world.wits_of(x)
        st = K.delivery(world, rng, x, full, wl)
        if clean:
            st = dict(e="ev", x=x, sg=list(full), wg=[(w, i) for i, w in enumerate(wl)], cp=[], sl=st["sl"], loc=True)
        out.append(st)
    rng.shuffle(out)
    # split some deliveries in two
    for st in list(out):
        if len(out) < size and len(st["sg"]) + len(st["wg"]) > 1 and rng.random() < .6:
            a, b = dict(st), dict(st)
            k = rng.randint(1, max(1, len(st["sg"]) - 1))
            a["sg"], b["sg"] = st["sg"][:k], st["sg"][k:] or st["sg"][:1]
            j = rng.randint(0, len(st["wg"]))
            a["wg"], b["wg"], b["cp"] = st["wg"][:j], st["wg"][j:], []
            out.remove(st)
            out += [a, b]
    return out[:size]


def abstract(world, st):
    """A delivery as KelMC sees it."""
    sg = [world.siger(st["x"], k, i, o)[1] for k, i, o in st["sg"]]
    wg = [world.wiger(st["x"], w, i)[1] for w, i in st["wg"]]
    cp = [world.couple(st["x"], w)[1] for w in st["cp"]]
    return {"x": st["x"], "sg": sg, "wg": wg, "cp": cp, "sl": st["sl"], "loc": st["loc"], "ok": st.get("ok", False)}


def small(rng, over, size, clean):
    import kelworld as K
    while True:
        s = rng.getrandbits(48)
        r = random.Random(s)
        w = K.make_world(r, **over)
        if len(w.ev) <= size:
            break
    m = menu(w, r, size, clean)
    for st in m:
        e = w.ev[st["x"] - 1]
        st["ok"] = clean
    return w, m


def _replay(job):
    worlds, scripts, path = job
    stats = {"worlds": 0, "events": 0, "accepted": 0, "deliveries": 0, "crash": []}
    with open(path, "w") as f:
        for w, m, h in scripts:
            steps = [dict(m[j - 1]) if j else {"e": "esc"} for j in h] + [{"e": "esc"}]
            put(f, play(w, steps), stats, json.dumps(h))
    return stats


def run_orders(c, clauses, over, quick, thorough, size, clean=False):
    """quick, thorough: (worlds, schedules to replay)."""
    nw, ns = c.pick(quick, thorough)
    ws = [small(c.rng, over, size, clean) for _ in range(nw)]
    d = tempfile.mkdtemp(prefix="kelmc-", dir=vcommon.scratch())
    p = os.path.join(d, "worlds.json")
    with open(p, "w") as f:
        json.dump([dict(w.table(), menu=[abstract(w, st) for st in m]) for w, m in ws], f)
    r = tlc("KelMC", cfgtext(constants={"EMIT": "TRUE"}, properties=["Grow"],
                             invariants=["OneChain", "Lineage", "PreRotated", "Delegated", "Once", "LogsAgree",
                                         "Confluent", "Emit"]),
            env={"WORLDS": p}, workers=7, timeout=800, heap="8g")
    if not r.ok:
        raise MachineryError("the KEL contract itself failed:\n" + tail(r.out, 100))
    c.model(r)
    hs = sorted((x["w"], x["h"]) for x in r.lines("@H"))
    c.count("schedules_enumerated", len(hs))
    c.rng.shuffle(hs)
    hs = hs[:ns]
    k = min(WORKERS, len(hs))
    jobs = [(None, [(*ws[wi - 1], h) for wi, h in hs[j::k]], os.path.join(d, f"s{j}.ndjson")) for j in range(k)]
    global _JOBS
    _JOBS = jobs
    with multiprocessing.get_context("fork").Pool(k) as pool:
        stats = pool.map(_replay_i, range(k), chunksize=1)
        verdicts = pool.map(_judge1, [[j[2]] for j in jobs], chunksize=1)
    finish(c, clauses, stats, verdicts, "schedule", {"orders": over})


def _replay_i(j):
    return _replay(_JOBS[j])


# ---------------------------------------------------------------- the checks
ALL = frozenset(MEANING)
FITS = {"dropped", "stuck"}           # what should be accepted is
SHAPE = {"place", "chain", "again", "order", "kel", "fel", "state", "record", "other"}
WHOLE = FITS | SHAPE


def kel(clauses, *profiles, modes=("plain",), orders=None, n=(400, 6000)):
    """A check: random worlds of each profile, then all orders of small ones."""
    def run(c):
        c.level = "model_checking"
        for over in profiles:
            run_random(c, clauses, over, *n, modes=modes)
        for over, size, clean in orders or ():
            run_orders(c, clauses, over, (25, 150), (250, 4000), size, clean=clean)
    return run


FORK = dict(fork=.7, aids=(1, 2), events=(6, 14))
DELEG = dict(deleg=.9, aids=(3, 4), fork=.3)
CHECKS = {
    "C20": kel(WHOLE | {"malformed", "keys", "wits", "nontrans", "trait", "deleg"},
               dict(), dict(FORK, eo=.25, dnd=.1, nontrans=.12, nonext=.12, bad=.35), dict(wits=.4, bad=.5, deleg=.4, dnd=.3),
               orders=[(dict(fork=.5, aids=(1, 1), events=(3, 4), wits=0, deleg=0, bad=.2), 5, False)]),
    "C21": kel(WHOLE | {"sigs", "keys", "badsig", "prerot"},
               dict(weighted=.8, noise=.8, partial=.7, fork=.1, wits=.1), dict(keys=(2, 4), noise=.9, partial=.8, fork=.2, deleg=.1),
               orders=[(dict(fork=.1, aids=(1, 1), events=(2, 3), wits=0, deleg=0, keys=(2, 3), partial=1, bad=0), 5, False)]),
    "C22": kel(WHOLE | {"prerot", "sigs", "nontrans"},
               dict(ixn=.15, weighted=.5, noise=.7, partial=.4, nonext=.1), dict(ixn=.1, keys=(1, 4), noise=.9, bad=.4, fork=.4, deleg=.3),
               orders=[(dict(fork=.4, ixn=.2, aids=(1, 1), events=(3, 4), wits=0, deleg=0, keys=(1, 2), bad=.3), 5, False)]),
    "C23": kel(WHOLE | {"toad", "wits", "badwig"},
               dict(wits=.95, noise=.6, rct=.4, ixn=.35, fork=.2), dict(wits=.95, ixn=.2, fork=.6, aids=(1, 2), bad=.35, events=(6, 14)),
               dict(wits=.95, rct=.8, partial=.6, deleg=.4),
               orders=[(dict(fork=.2, ixn=.3, aids=(1, 1), events=(2, 3), wits=1, deleg=0, bad=0), 5, False)]),
    "C24": kel(WHOLE | {"dupl", "rank"},
               dict(FORK, bad=.3), dict(graft=1, aids=(1, 2), events=(2, 5), shuffle=.2, noise=.1, wits=.1), dict(FORK, wits=.5, ixn=.7), dict(deleg=.9, fork=.6, aids=(2, 3), events=(8, 16), twin=.6),
               dict(deleg=.9, fork=.9, twin=.9, wits=0, noise=.1, partial=.1, aids=(2, 2), events=(6, 14), bad=.15),
               orders=[(dict(fork=.8, aids=(1, 1), events=(3, 5), wits=0, deleg=0, bad=0), 5, True)]),
    "C25": kel(WHOLE | {"seal", "rank", "deleg", "trait"},
               dict(DELEG, own=.0), dict(DELEG, fork=.5, events=(8, 16)), dict(DELEG, dnd=.3, bad=.3, own=.3), dict(DELEG, wits=.5, fork=.1),
               orders=[(dict(fork=.1, deleg=1, aids=(2, 2), events=(3, 4), wits=0, bad=0), 5, False)]),
    "C26": kel(ALL - {"badsig", "badwig", "strangesig", "badrct", "badtrct", "srcloc", "lostsig"},
               dict(shuffle=1, partial=.7, bad=.05), dict(shuffle=1, partial=.6, wits=.7, deleg=.5, rct=.7),
               orders=[(dict(fork=.3, aids=(1, 2), events=(3, 5), deleg=.5, wits=.3, bad=0, own=0), 5, True),
                       (dict(fork=.3, aids=(1, 2), events=(3, 5), deleg=.3, wits=.5, bad=.1, own=.1), 6, False)]),
    "C27": kel({"badsig", "badwig", "badrct", "badtrct", "strangesig", "lostsig", "srcloc", "stuck", "toad"},
               dict(wits=.9, rct=.9, fork=.3), dict(noise=.9, partial=.8, wits=.5, rct=.6, trc=.2), dict(wits=.8, rct=.8, own=.3, deleg=.4, trc=.3),
               dict(trc=.7, rct=.5, fork=.4, wits=.3), dict(trc=.5, rct=.9, wits=.7, noise=.8, own=.3, shuffle=1, fork=.5, aids=(1, 3)),
               orders=[(dict(fork=.3, aids=(1, 1), events=(2, 3), wits=1, deleg=0, bad=0), 5, False)]),
    "C28": kel(ALL, dict(own=0), dict(own=0, wits=.7, deleg=.6, fork=.4, rct=.6), dict(FORK, own=0),
               modes=("restart", "crash", "crash", "clone"), n=(200, 4000)),
    "C29": kel(WHOLE | {"source", "srcloc", "toad", "seal"},
               dict(own=.8, local=.5, ownlocal=.5), dict(own=.7, wits=.8, local=.4, ownlocal=.5, deleg=.2), dict(DELEG, own=.5, local=.4, ownlocal=.5),
               dict(own=.8, partial=.9, dup=.7, local=.5, ownlocal=.6, keys=(2, 4), aids=(1, 2)),
               orders=[(dict(own=.7, local=.5, ownlocal=.5, aids=(1, 2), events=(2, 4), wits=.5, deleg=.3, bad=0), 5, False)]),
}
