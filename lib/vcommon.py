"""Shared machinery: running TLC, writing evidence, reporting violations."""
import atexit
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("KERI_REPO", "/repo")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

_scratch = None


def scratch():
    """A private directory, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        pid = os.getpid()

        def _clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(_clean)
    return _scratch


class MachineryError(Exception):
    """The check itself could not do its work (neither verdict)."""


class Violation(Exception):
    def __init__(self, what, **info):
        super().__init__(what)
        self.what = what
        self.info = info


class Hang(Exception):
    """The code under test did not come back."""


class guard:
    """with guard(s): raise Hang in the block when it takes over s seconds (main thread only)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def alarm(sig, frame):
            raise Hang(f"a call did not return within {self.seconds} s")
        self.main = threading.current_thread() is threading.main_thread()
        if self.main:
            self.old = signal.signal(signal.SIGALRM, alarm)
            signal.setitimer(signal.ITIMER_REAL, self.seconds, 5)

    def __exit__(self, *exc):
        if self.main:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out
        m = re.search(r"Invariant (\S+) is violated", out)
        self.invariant = m.group(1) if m else None
        if self.invariant is None:
            m = re.search(r"Action property (\S+) is violated|Temporal properties were violated", out)
            if m:
                self.invariant = m.group(1) or "temporal"
        if self.invariant is None and "Deadlock reached" in out:
            self.invariant = "deadlock"

    def lines(self, tag):
        """Objects printed with PrintT("<tag> " \\o ToJson(..))."""
        pre = '"' + tag + " "
        for ln in self.out.splitlines():
            if ln.startswith(pre):
                yield json.loads(json.loads(ln)[len(tag) + 1:])


def cfgtext(spec="Spec", constants=None, invariants=(), properties=(), view=None,
            constraints=(), action_constraints=(), postcondition=None, deadlock=False,
            init=None, next=None, extra=""):
    L = []
    if init:
        L += [f"INIT {init}", f"NEXT {next}"]
    else:
        L.append(f"SPECIFICATION {spec}")
    for k, v in (constants or {}).items():
        if isinstance(v, str) and v.startswith("<-"):
            L.append(f"CONSTANT {k} {v}")
        else:
            L.append(f"CONSTANT {k} = {v}")
    for i in invariants:
        L.append(f"INVARIANT {i}")
    for p in properties:
        L.append(f"PROPERTY {p}")
    if view:
        L.append(f"VIEW {view}")
    for c in constraints:
        L.append(f"CONSTRAINT {c}")
    for c in action_constraints:
        L.append(f"ACTION_CONSTRAINT {c}")
    if postcondition:
        L.append(f"POSTCONDITION {postcondition}")
    L.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
    return "\n".join(L) + "\n" + extra


def tlc(module, cfg, *, env=None, workers=4, timeout=300, heap="4g", args=(), tag=None):
    """Run TLC on spec/<module>.tla with the given config text."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cfgp = os.path.join(d, "M.cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
           f"-Djava.io.tmpdir={d}",
           "-cp", TLAJAR, "tlc2.TLC", "-metadir", os.path.join(d, "md"),
           "-noGenerateSpecTE", "-workers", str(workers), "-config", cfgp,
           *args, os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC on {module} ran past {timeout}s") from ex
    finally:
        pass
    r = TLCResult(p.returncode, p.stdout, time.time() - t0)
    shutil.rmtree(d, ignore_errors=True)
    if not r.ok and r.invariant is None and "PostCondition" not in r.out and "is false" not in r.out:
        raise MachineryError(f"TLC on {module} failed:\n" + r.out[-12000:])
    return r


def tail(out, n=60):
    return "\n".join(out.splitlines()[-n:])


class Check:
    """One run of one property's check."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.t0 = time.time()
        self.rng = random.Random((self.seed, prop).__repr__())
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": []}
        self.assumptions = []
        self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def write(self, violations=0):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        if not self.cov["samples"]:
            self.cov["samples"].append("none")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    def replay_path(self):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, f"{self.prop}.json")


def known_findings(prop):
    """Entries of known_findings.json for a property: list of {id, match, what}."""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]


def main(prop, fn, level="model_checking"):
    """Run one check body and turn its outcome into the interface's exit codes."""
    c = Check(prop, level)
    try:
        fn(c)
    except BaseException as ex:  # noqa
        if isinstance(ex, Violation):
            v = ex
        elif isinstance(ex, (MachineryError, KeyboardInterrupt, SystemExit)):
            raise
        else:
            tb = traceback.format_exc()
            files = [f.filename for f in traceback.extract_tb(ex.__traceback__)]
            remote = str(ex.__cause__ or "")      # the traceback of a worker process
            if not (any(os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep) for f in files)
                    or f'File "{os.path.realpath(REPO)}{os.sep}' in remote or f'File "{REPO}{os.sep}' in remote):
                raise
            v = Violation(f"the implementation raised {type(ex).__name__}: {ex}", traceback=tb)
        path = c.replay_path()
        with open(path, "w") as f:
            json.dump({"property": prop, "what": v.what, "seed": c.seed, "tier": c.tier,
                       "info": v.info}, f, indent=1, default=str)
        c.write(violations=1)
        print(f"{prop}: {v.what}")
        print(f"VIOLATION property={prop} replay={path}")
        sys.stdout.flush()
        return 1
    for k in c.known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    c.write(0)
    print(f"{prop}: held ({c.cov['states']} states, {c.cov['transitions']} transitions, "
          f"{c.cov['traces_validated_against_impl']} traces, {time.time()-c.t0:.1f}s)")
    sys.stdout.flush()
    return 0
