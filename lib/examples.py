"""The worked-example drift guard and tagger against spec/Examples.tla."""
import ast
import contextlib
import importlib.util
import io
import json
import os
import re
import tempfile

from vcommon import (Violation, MachineryError, tlc, cfgtext, scratch, tail, REPO)


def load(name):
    sp = importlib.util.spec_from_file_location(name, os.path.join(REPO, "tools", name + ".py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


# ------------------------------------------------------------- concretizing
def py(v):
    """Spec value tree -> Python value."""
    t = v["t"]
    if t == "num":
        return float(v["s"]) if "." in v["s"] else int(v["s"])
    if t == "bool":
        return v["s"] == "true"
    if t == "null":
        return None
    if t == "str":
        return v["s"]
    if t == "list":
        return [py(x["v"]) for x in v["c"]]
    if t == "dict":
        return {x["k"]: py(x["v"]) for x in v["c"]}
    raise MachineryError("no value " + t)


def floaty(x, rng):
    """The same value written differently: 1 as 1.0, keys reordered."""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, int):
        return float(x) if rng.random() < .2 and int(float(x)) == x else x
    if isinstance(x, float):
        return x
    if isinstance(x, list):
        return [floaty(y, rng) for y in x]
    ks = list(x)
    rng.shuffle(ks)
    return {k: floaty(x[k], rng) for k in ks}


BADS = ["{ not valid", "{'a': }", "{{}: 1}", "[1, 2", "nonsense here", "{\"a\": 1,, }"]
PROSE = ["Some prose.", "## A heading", "- item `code`", "<!-- just a comment -->", "a ``` b"]


def render(doc, rng):
    out = []
    for x in doc:
        if x["t"] == "mark":
            out.append(rng.choice(["<!-- example: {} -->", "<!--example: {}-->",
                                   "<!--  example:   {}   -->", "  <!-- example: {} -->"]
                                  ).format(x["n"]))
        elif x["t"] == "blank":
            out.append(rng.choice(["", "", "   "]))
        elif x["t"] == "text":
            out.append(rng.choice(PROSE))
        else:
            lang = x["lang"]
            if x["v"]["t"] == "bad":
                body = rng.choice(BADS)
            elif lang == "python":
                v = floaty(py(x["v"]), rng)
                body = repr(v) if rng.random() < .7 else repr(v).replace(", ", ",\n ")
                if ast.literal_eval(body) != v:
                    body = repr(v)
            else:
                v = floaty(py(x["v"]), rng)
                body = json.dumps(v, indent=rng.choice([None, 2, 4]))
            pad = rng.choice(["", "", "  "])
            if lang != "yaml":
                lang = rng.choice([lang, lang, lang.upper(), lang.capitalize()])
            out.append(f"{pad}```{rng.choice(['', '', ' '])}{lang}{rng.choice(['', '  '])}")
            out.extend(body.split("\n"))
            out.append(pad + "```")
    return "\n".join(out) + rng.choice(["", "\n"])


MARK = re.compile(r"^\s*<!--\s*example:\s*(.*?)\s*-->\s*$")


class Tools:
    def __init__(self):
        self.chk = load("check_spec_examples")
        self.tagger = load("tag_spec_examples")
        self.dir = tempfile.mkdtemp(prefix="ex-", dir=scratch())

    def files(self, manifest, text):
        mp, sp = os.path.join(self.dir, "m.json"), os.path.join(self.dir, "s.md")
        with open(mp, "w", encoding="utf-8") as f:
            json.dump(manifest, f)
        with open(sp, "w", encoding="utf-8") as f:
            f.write(text)
        return mp, sp

    def guard(self, manifest, text):
        mp, sp = self.files(manifest, text)
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                rc = self.chk.main(["--manifest", mp, "--spec", sp])
            except SystemExit as ex:
                rc = ex.code
        rep = out.getvalue()
        r = {"g": rc, "er": len(re.findall(r"^PARSE ERROR: ", rep, re.M)),
             "mi": sorted(re.findall(r"^MISSING IN SPEC: manifest block '(.*?)'", rep, re.M)),
             "ex": sorted(re.findall(r"^EXTRA IN SPEC: spec block '(.*?)'", rep, re.M)),
             "dr": sorted(re.findall(r"^MISMATCH: '(.*?)' differs", rep, re.M))}
        if rc == 0 and not rep.startswith("OK:"):
            r["g"] = "0 without OK"
        return r

    def tag(self, manifest, text):
        mp, sp = self.files(manifest, text)
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            rc = self.tagger.main(["--manifest", mp, "--spec", sp, "--dry-run"])
            with open(sp, encoding="utf-8") as f:
                if f.read() != text:
                    raise Violation("a dry run of the tagger changed the document", text=text)
            rc = self.tagger.main(["--manifest", mp, "--spec", sp])
        with open(sp, encoding="utf-8") as f:
            return f.read()


def doc_shape(before, after, doc):
    """The item shape of a tagged document, by its added lines."""
    a, b = before.split("\n"), after.split("\n")
    # lines of each item of the original document
    items, i, added = [], 0, 0
    spans = []
    pos = 0
    for x in doc:
        if x["t"] == "fence":
            j = pos + 1
            while a[j].strip() != "```":
                j += 1
            spans.append((pos, j + 1))
            pos = j + 1
        else:
            spans.append((pos, pos + 1))
            pos += 1
    k = 0
    for x, (s, e) in zip(doc, spans):
        while k < len(b) and b[k] != a[s] and MARK.match(b[k]):
            items.append("mark:" + MARK.match(b[k]).group(1))
            k += 1
        if b[k:k + e - s] != a[s:e]:
            return ["altered:" + repr(b[k:k + e - s])]
        # a marker equal to the original one is the original
        items.append("mark:" + x["n"] if x["t"] == "mark" else x["t"])
        k += e - s
    if b[k:] != a[pos:]:
        return ["altered tail:" + repr(b[k:])]
    return items


def enum_docs(c, maxlen):
    r = tlc("ExamplesMC", cfgtext(constants={"MaxLen": maxlen, "EMIT": "TRUE"},
                                  invariants=["Idempotent", "OnlyAdds", "Honest", "GuardSound"],
                                  action_constraints=["Emit"]), workers=6)
    if not r.ok:
        raise MachineryError("the guard's contract itself failed:\n" + tail(r.out))
    c.model(r)
    return r.lines("@D")


# ------------------------------------------------------------- random values
NUMS = ["0", "1", "2", "1.5", "100", "-3", "-1", "1.25", "1.2500001", "9007199254740992",
        "9007199254740993", "0.1", "99", "101"]
STRS = ["", "1", "abc", "ABC", "true", "a b", "0", "abc ", " abc", "abcd", "ab", "a  b", "a\nb", "a\tb",
        "\u00e9", "e\u0301", "None", "null", "1.0", "EABC" + "x" * 40, "EABC" + "x" * 39 + "y", "{}", "[]", " "]


def near(s, rng):
    """A string that differs from s only a little."""
    opts = [s + " ", " " + s, s + "\n", s + "x", s[:-1], s[1:], s.swapcase(), s + s, s[::-1],
            s.replace("a", "\u0430"), s.replace(" ", "")]
    opts = [o for o in opts if o != s]
    return rng.choice(opts)


def rand_value(rng, depth, dictonly=False):
    c = rng.random()
    if depth > 0 and (dictonly or c < .35):
        ks = rng.sample(["d", "a", "e", "v", "nested", "x1", "i", "A", "$id", "d ", "", "1", "\u00e9"],
                        rng.randint(0, 4))
        return {"t": "dict", "s": "", "c": [{"k": k, "v": rand_value(rng, depth - 1)} for k in ks]}
    if depth > 0 and c < .55:
        return {"t": "list", "s": "", "c": [{"k": "", "v": rand_value(rng, depth - 1)}
                                           for _ in range(rng.randint(0, 4))]}
    if c < .7:
        return {"t": "num", "s": rng.choice(NUMS), "c": []}
    if c < .8:
        return {"t": "bool", "s": rng.choice(["true", "false"]), "c": []}
    if c < .85:
        return {"t": "null", "s": "", "c": []}
    return {"t": "str", "s": rng.choice(STRS), "c": []}


def mutate(v, rng):
    """One change somewhere inside a value."""
    v = json.loads(json.dumps(v))
    node = v
    while node["c"] and rng.random() < .75:
        node = rng.choice(node["c"])["v"]
    c = rng.random()
    if node["t"] == "str" and c < .6:
        node["s"] = near(node["s"], rng)
        return v
    if node["t"] == "list" and len(node["c"]) > 1 and c < .25:
        i, j = rng.sample(range(len(node["c"])), 2)
        node["c"][i], node["c"][j] = node["c"][j], node["c"][i]
        return v
    if node["t"] == "dict" and node["c"] and c < .15:
        x = rng.choice(node["c"])
        k = near(x["k"], rng).replace("\n", "_")
        if k not in [y["k"] for y in node["c"]]:
            x["k"] = k
        return v
    if c < .6 and node["t"] in ("dict", "list"):
        if node["c"] and rng.random() < .5:
            node["c"].pop(rng.randrange(len(node["c"])))
        else:
            k = "" if node["t"] == "list" else rng.choice(["new", "q", "d9"])
            node["c"].insert(rng.randint(0, len(node["c"])) if node["t"] == "dict" else len(node["c"]),
                             {"k": k, "v": rand_value(rng, 1)})
            if node["t"] == "dict" and len({x["k"] for x in node["c"]}) < len(node["c"]):
                node["c"].pop()
                seen = {}
                for x in node["c"]:
                    seen[x["k"]] = x
                node["c"] = list(seen.values())
    else:
        w = rand_value(rng, 1)
        node.update(t=w["t"], s=w["s"], c=w["c"])
    return v


PATHLINE = re.compile(r"^    - (.*?): (?:type differs|missing in spec|unexpected in spec|"
                      r"list length differs|value differs)", re.M)


def diff_event(tools, x, y, rng):
    ok, report = tools.chk.compare({"blk": py(x)}, {"blk": floaty(py(y), rng)})
    rep = "\n".join(report)
    return {"e": "diff", "x": x, "y": y, "ok": bool(ok), "paths": sorted(set(PATHLINE.findall(rep)))}


def run_event(tools, m, doc, rng):
    man = {x["n"]: py(x["v"]) for x in m}
    text = render(doc, rng)
    ev = {"e": "run", "m": m, "d": doc}
    ev.update(tools.guard(man, text))
    ev["tg"] = doc_shape(text, tools.tag(man, text), doc)
    ev["text"] = text
    return ev


def rand_case(rng):
    names = ["alpha", "beta", "gammaBlock", "d-1", "Epsilon_2", "with space"]
    base = [rand_value(rng, 3, True) for _ in range(4)]
    m = []
    for n in rng.sample(names, rng.randint(0, 5)):
        m.append({"n": n, "v": rng.choice(base)})
    null = {"t": "null", "s": "", "c": []}
    doc = []
    for _ in range(rng.randint(0, 14)):
        c = rng.random()
        if c < .35:
            doc.append({"t": "mark", "n": rng.choice(names[:4] if rng.random() < .5 else names),
                        "lang": "", "v": null})
        elif c < .45:
            doc.append({"t": "blank", "n": "", "lang": "", "v": null})
        elif c < .52:
            doc.append({"t": "text", "n": "", "lang": "", "v": null})
        else:
            v = rng.choice(base)
            if rng.random() < .25:
                v = mutate(v, rng)
            if rng.random() < .06:
                v = {"t": "bad", "s": "", "c": []}
            doc.append({"t": "fence", "n": "", "v": v,
                        "lang": rng.choice(["json", "json", "python", "python", "yaml"])})
    # often: a complete, faithful document
    if rng.random() < .4:
        doc = []
        for x in m:
            doc += [{"t": "mark", "n": x["n"], "lang": "", "v": null}] + \
                   [{"t": "blank", "n": "", "lang": "", "v": null}] * rng.randint(0, 2) + \
                   [{"t": "fence", "n": "", "v": x["v"], "lang": rng.choice(["json", "python"])}]
        if doc and rng.random() < .5:
            doc.pop(rng.randrange(len(doc)))
    return m, doc


def validate(c, evs, what):
    p = os.path.join(scratch(), "ex.ndjson")
    with open(p, "w") as f:
        for e in evs:
            f.write(json.dumps(e) + "\n")
    r = tlc("ExamplesTrace", cfgtext(postcondition="Done"), env={"TRACE": p}, workers=1)
    c.model(r)
    for b in r.lines("@BAD"):
        e = evs[b["line"] - 1]
        raise Violation(f"{what}: {b['clause']}: tool says "
                        f"{ {k: e[k] for k in e if k not in ('m','d','text','x','y','e')} }, "
                        f"the specification says {json.dumps(b['want'])[:300]}", event=e, want=b["want"])
    done = list(r.lines("@DONE"))
    if not done or done[0]["n"] != len(evs):
        raise MachineryError(f"trace not consumed {done}\n" + tail(r.out))
    c.traces(len(evs))
