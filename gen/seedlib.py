"""Write seeded/<id>/ directories from SEEDS lists. usage: seedlib.py <module> [ids]"""
import importlib, json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
OUT = os.path.join(os.path.dirname(HERE), "seeded")
def make(s):
    d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
    w = f"/tmp/mkseed-{os.getpid()}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(os.environ.get("R", "/repo"), w, symlinks=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(w, f); t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        for f, old, new in s["edits"]:   # only lines of the original repository
            base = subprocess.run(["git", "show", "1e12bbf:" + f], cwd=w, capture_output=True, text=True, check=True).stdout
            for line in old.splitlines():
                if line not in new.splitlines() and line.strip() and line not in base.splitlines():
                    print("NOT ORIGINAL", s["id"], line)
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(w, ignore_errors=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"])
    if s.get("kh"):
        s["shims"] = True
        for x in ["kh.py"] + s.get("extra", []):
            shutil.copy(os.path.join(HERE, x), os.path.join(d, x))
    sh = "#!/bin/bash\n# run with cwd = the repository\n"
    if s.get("shims"):
        dst = os.path.join(d, "shims"); shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(os.path.join(os.path.dirname(HERE), "shims"), dst, ignore=shutil.ignore_patterns("__pycache__"))
        sh += 'export KERI_REPO="$PWD"\n'
    sh += 'HERE="$(cd "$(dirname "$0")" && pwd)"\nexec /opt/venv/bin/python -B "$HERE/demo.py"\n'
    open(os.path.join(d, "demo.sh"), "w").write(sh); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
if __name__ == "__main__":
    m = importlib.import_module(sys.argv[1])
    ids = sys.argv[2:]
    for s in m.SEEDS:
        if not ids or s["id"] in ids:
            make(s); print("made", s["id"])
