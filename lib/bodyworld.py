"""Worlds of message bodies for spec/Body.tla: bodies made and altered here, byte by byte, given to the real Serders to read, and made by them."""
import json
from base64 import urlsafe_b64decode, urlsafe_b64encode

import keri_env  # noqa: F401
import blake3
import cbor2
import msgpack
from keri.core.coring import Matter
from keri.core.counting import Counter
from keri.core.mapping import Mapper
from keri.core.serdering import SerderACDC, SerderKERI
from keri.core.signing import Signer
from keri.kering import Vrsn_1_0, Vrsn_2_0

DUMMY = "#" * 44
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
KIND = dict(JSON=lambda x: json.dumps(x, separators=(",", ":"), ensure_ascii=False).encode(), CBOR=cbor2.dumps, MGPK=msgpack.dumps)
EST = ("icp", "rot", "dip", "drt")


def b64(n, k):
    return "".join(B64[n >> 6 * j & 63] for j in reversed(range(k)))


def said(raw):
    """The identifier of bytes: code E and the BLAKE3 digest, made here."""
    return "E" + urlsafe_b64encode(b"\0" + blake3.blake3(raw).digest()).decode()[1:]


def verstr(proto, v, kind, size):
    if v == 1:
        return f"{proto}10{kind}{size:06x}_"
    return f"{proto}CAACAA{kind}{b64(size, 4)}."


def block(m, kind, d="d"):
    """The identifier of a block that has one, its most compact form's: what it holds is put down by identifier where that has one."""
    low = {k: compact(x, kind) if isinstance(x, dict) else x for k, x in m.items()}
    return said(native(low, d) if kind == "CESR" else KIND[kind](low | {d: DUMMY}))


def compact(x, kind):
    if "d" in x:
        return block(x, kind)
    return {k: compact(v, kind) if isinstance(v, dict) else v for k, v in x.items()}


def agid(els, kind):
    """The identifier of a list of elements."""
    els = [e if isinstance(e, str) else e["d"] for e in els]
    if kind == "CESR":
        return said(b"-J" + b64(11 * (1 + len(els)), 2).encode() + "".join([DUMMY] + els).encode())
    return said(KIND[kind]([DUMMY] + els))


def write(t, body, kind, saids=("d",), wrong={}, off=0, form="canonical", vkind=None):
    """Bytes of a body, its fields in the order given, its identifier and version string put right (or wrong)."""
    proto, v = t[0], t[1]
    body = dict(body)
    dump = KIND[kind]
    full = [k for k in body if k in saids]
    for k in full:
        body[k] = DUMMY
    if "v" in body:
        body["v"] = "#" * (17 if v == 1 else 19)
    extra = 0 if form in ("canonical", "kind", "twice") else 1
    if form == "twice":
        extra = len(f',"{list(body)[-1]}":1')
    size = len(dump(body)) + off + extra
    if "v" in body:
        body["v"] = verstr(proto, v, vkind or kind, size)
    low = dict(body)
    if proto == "ACDC" and v == 2 and t[2] in ("None", "acm", "ace", "act", "acg"):
        for k in ("s", "a", "e", "r", "A"):
            x = low.get(k)
            if isinstance(x, dict):
                low[k] = block(x, kind, "$id" if k == "s" else "d")
            elif isinstance(x, list):
                low[k] = agid(x[1:], kind)
        if "v" in low:
            low["v"] = verstr(proto, v, vkind or kind, len(dump(low)) + off + extra)
    d = said(dump(low))
    for k in full:
        body[k] = wrong[k] if k in wrong else d
    raw = dump(body)
    if form == "spaced":                         # the same to any reader of the format, with other bytes
        i = raw.index(body["v"].encode())
        if kind == "JSON":
            raw = raw[:i - 1] + b" " + raw[i - 1:]
        elif kind == "MGPK":
            raw = raw[:i - 1] + bytes([0xd9, len(body["v"])]) + raw[i:]
        else:
            raw = raw[:i - 1] + bytes([0x78, len(body["v"])]) + raw[i:]
    elif form == "padded":
        raw += {"JSON": b"\n", "CBOR": b"\xf6", "MGPK": b"\xc0"}[kind]
    elif form == "twice":                        # a field there twice
        raw = raw[:-1] + b',"' + list(body)[-1].encode() + b'":1}'
    return raw, body


class World:
    def __init__(self, rng):
        self.rng = rng
        self.n = rng.getrandbits(40)

    def fresh(self):
        self.n += 1
        return b"body %d" % self.n

    def dig(self):
        return said(self.fresh())

    def key(self, t=True):
        return Signer(raw=blake3.blake3(self.fresh()).digest(), transferable=t).verfer.qb64

    def nonce(self):
        return "0A" + urlsafe_b64encode(b"\0\0" + blake3.blake3(self.fresh()).digest()[:16]).decode()[2:]

    def stamp(self):
        r = self.rng
        return f"2024-{r.randint(1, 12):02d}-{r.randint(1, 28):02d}T{r.randint(0, 23):02d}:05:06.{r.randrange(10**6):06d}+00:00"

    def text(self, native):
        r = self.rng
        return r.choice(["", "a", "ab", "abc", "a b", "x/y", "-", "-A", "0", "1", "héé", "日本", "E", "D" * 44, self.dig(), self.key(), "1AAK", "1AAP", "1AAO", "4AAB" + "abcd",
                         "5BAB" + "AGFi", "XAAA", "YAAAAAAA", "null", "true", "3.5", "4H" + "AB" + "12p5", "V" + "AAA", "\n", '"', "A" * 3, "A" * 4, "a" * 300, "_", "WAAA", "AAAA" * 20,
                         self.dig() + "x", self.dig() + " more", self.nonce() + self.nonce(), "0J_A", "0K--", "1AAFabcd", "6AABAAab", "7AAA" + "AAAB" + "abcd"])

    def label(self):
        return self.rng.choice(["a", "b", "n", "name", "x_y", "LEI", "dt", "url", "A" * 11, "q" * 14, "Zz0"])

    def value(self, native, deep=0):
        r = self.rng
        k = r.choice("sssssibnfml" if deep < 3 else "sssib")
        if k == "s":
            return self.text(native)
        if k == "i":
            return r.choice([0, 1, -1, 255, 10**6, -70000, 2**40, r.randint(-1000, 1000)])
        if k == "f":
            return r.choice([0.5, -1.25, 3.75, 1000.125])
        if k == "b":
            return r.random() < .5
        if k == "n":
            return None
        if k == "m":
            return self.map(native, deep + 1)
        return [self.value(native, deep + 1) for _ in range(r.randint(0, 3))]

    def map(self, native, deep=0):
        return {self.label(): self.value(native, deep) for _ in range(self.rng.randint(0, 3))}

    def number(self):
        r = self.rng
        return "%x" % r.choice([0, 1, 2, 9, 10, 15, 16, 255, 256, 65535, 65536, 2**24, 2**32 - 1, 2**33, 2**60, r.getrandbits(20)])

    def tholds(self, n):
        r = self.rng
        k = r.randrange(4) if n < 20 else 0
        if n < 2 or k == 0:
            return "%x" % r.randint(1 if n else 0, n or 0)
        if k == 1:
            return ["1/2"] * n
        if k == 2:
            return [["1"] + ["0"] * 0] + [["1/2"] * (n - 1)] if n > 2 else ["1", "1/3"]
        return ["1/%d" % n] * n

    def seal(self):
        r = self.rng
        return r.choice([lambda: dict(d=self.dig()), lambda: dict(rd=self.dig()), lambda: dict(i=self.dig(), s=self.number(), d=self.dig()),
                         lambda: dict(s=self.number(), d=self.dig()), lambda: dict(i=self.dig()),
                         lambda: dict(bi=self.key(False), d=self.dig()), lambda: dict(zz=1, name="some"), lambda: dict(q=[self.dig()], m={})])()

    def saidive(self, kind, depth=0, edge=False):
        """A block with its identifier, perhaps with more inside."""
        r = self.rng
        m = dict(d="")
        if r.random() < .5:
            m["u"] = self.nonce()
        for _ in range(r.randint(1, 3)):
            l = r.choice(["name", "place", "n", "zip", "role"])
            m[l] = r.choice(["x", "some text", 5, True, None, self.dig(), "2", 2.5])
        if depth < 2:
            if r.random() < .5:
                m["in"] = self.saidive(kind, depth + 1)
            if r.random() < .25:
                m["mid"] = dict(w="a", deep=self.saidive(kind, depth + 1))
        m["d"] = block(m, kind)
        return m

    def section(self, l, kind):
        if l == "A":
            els = [self.saidive(kind, 2) if self.rng.random() < .6 else self.dig() for _ in range(self.rng.randint(1, 3))]
            return [agid(els, kind)] + els
        if l == "s":
            m = {"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "type": "object", "title": self.rng.choice(["t", "Some title"])}
            m["$id"] = block(m, kind, "$id")
            return m
        return self.saidive(kind)

    def contents(self, t, fields, kind, pre="digest", expand=.5):
        """A value for every field of a body of a type."""
        r = self.rng
        proto, v, ilk = t
        native = kind == "CESR"
        out = {}
        nk = r.randint(1, 3)
        i = {"digest": self.dig, "basic": self.key, "basicnt": lambda: self.key(False), "junk": lambda: "0B" + "A" * 86, "none": lambda: "not one"}[pre.replace("x", "")]()
        for f in fields:
            if f == "v":
                x = ""
            elif f == "t":
                x = ilk
            elif f in ("d", "p", "x", "td") or f in ("ri", "ii", "b") and proto == "ACDC" or f == "rp" or (f in ("ri", "di", "ii") and proto == "KERI"):
                x = self.dig()
            elif f == "i":
                x = i
            elif f == "u":
                x = self.nonce()
            elif f in ("s", "bt") and proto == "KERI" or f == "n" and proto == "ACDC":
                x = self.number() if f != "bt" else "%x" % r.randint(0, 3)
            elif f == "k":
                x = [self.key() for _ in range(nk)]
            elif f == "n" and ilk in EST:
                x = [self.dig() for _ in range(nk if r.random() < .8 else 0)]
            elif f == "n":
                x = self.nonce()
            elif f in ("kt", "nt"):
                x = self.tholds(nk) if f == "kt" else None
            elif f in ("b", "br", "ba"):
                x = [self.key(False) for _ in range(r.randint(0, 3))]
            elif f == "c":
                x = r.sample(["EO", "DND", "NRB", "RB"], r.randint(0, 2)) if ilk != "vcp" else r.choice([[], ["NB"]])
            elif f == "a" and ilk in EST + ("ixn",):
                x = [self.seal() for _ in range(r.randint(0, 4))]
            elif f in ("q", "e", "a") and proto == "KERI":
                x = self.map(native)
            elif f == "ra":
                x = dict(i=self.dig(), s=self.number(), d=self.dig())
            elif f == "dt":
                x = self.stamp()
            elif f in ("r", "rr") and proto == "KERI":
                x = r.choice(["ksn", "a/b", "tels/x", "loc/scheme", "n", "0123/Ab_c"]) if native else r.choice(["/ksn", "ksn", "/a/b", "a b", "", "/x-y.z", "/é"])
            elif f == "rd":
                x = self.dig()
            elif f == "ts":
                x = r.choice(["issued", "revoked", "x y", "a"])
            elif f in ("s", "a", "e", "r", "A") and proto == "ACDC":
                must = ilk in ("sch", "att", "agg", "edg", "rul")
                if v == 1:
                    x = self.dig() if f == "s" or r.random() < .5 else self.map(False) | dict(d=self.dig())
                elif must or r.random() < expand:
                    x = self.section(f, kind)
                else:
                    x = self.dig()
            else:
                x = r.choice(["more", 5, None, dict(a=1)])          # a field of no one
            out[f] = x
        if r.random() < .04:                     # more than a small group holds
            f = r.choice([f for f in out if f in ("n", "b", "br", "ba", "q") and isinstance(out[f], (list, dict))] or [None])
            if f == "q":
                out[f] = dict(out[f], big=r.choice(["x" * 13000, "y z" * 6000, [self.dig() for _ in range(400)], dict(n=["abc"] * 5000)]))
            elif f:
                out[f] = [self.dig() for _ in range(r.choice([372, 373, 390]))]
        if "nt" in out:
            out["nt"] = self.tholds(len(out.get("n", [])))
        if pre in ("basic", "basicnt") and ilk in ("icp", "dip"):
            out |= dict(k=[i], kt="1")
        if pre == "xbasic" and ilk in ("icp", "dip"):
            if r.random() < .5:
                out |= dict(k=[self.key()], kt="1")
            else:
                out |= dict(k=[i, self.key()], kt="1")
        if pre == "basicnt":
            for f in ("n", "b", "a"):
                if f in out and ilk in EST:
                    out[f] = []
            if "nt" in out:
                out["nt"] = "0"
        return out


def vrsn(v):
    return Vrsn_1_0 if v == 1 else Vrsn_2_0


def serder(t):
    return SerderKERI if t[0] == "KERI" else SerderACDC


def take(t, raw, body, kind, how, rng, same=None):
    """Reads bytes with the real Serder; what came of it."""
    S = serder(t)
    rest = b"" if how == "only" else rng.choice([b'{"v":"KERI10JSON000013_"}', b"-VAA", b"AAAA", bytes(6)])
    ims = bytearray(raw + rest)
    if how == "bytes":
        ims = bytes(ims)
    try:
        if how == "binary":
            ims = bytearray(urlsafe_b64decode(raw) + bytes(6))
            rest = bytes(6)
        s = S(raw=ims, strip=how in ("strip", "binary"))
    except Exception:
        return dict(took=False, same=True, rest=True, how=how)
    ok = (s.raw == raw and s.size == len(raw) and s.kind == kind and s.proto == t[0] and s.pvrsn.major == t[1] and (s.ilk or "None") == t[2]
          and s.said == body.get("d") and s.verify() and (same is None or (list(s.sad) == list(same) and equal(s.sad, same))))
    left = rest if how in ("strip", "binary") else raw + rest
    return dict(took=True, same=bool(ok), rest=bytes(ims) == left, how=how)


def equal(a, b):
    """The same values, of the same types, in the same order."""
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(equal, a, b))
    return type(a) is type(b) and a == b


def natsaid(raw, d):
    """The identifier of natively serialized bytes: its occurrences in its own fields dummied."""
    return said(raw.replace(d.encode(), DUMMY.encode()))


def native(m, d="d"):
    """A block natively serialized, its identifier dummied: made by Mapper around another."""
    hold = said(b"to be replaced")
    return Mapper(mad=m | {d: hold}, strict=d == "d").qb64b.replace(hold.encode(), DUMMY.encode())


def parts(raw):
    """The parts of a natively serialized body: its counter, then each primitive or group at top."""
    c = Counter(qb64b=raw)
    out, at = [raw[:c.fullSize]], c.fullSize
    while at < len(raw):
        if raw[at:at + 1] == b"-":
            g = Counter(qb64b=raw[at:])
            n = g.byteCount() + g.byteSize()
        else:
            n = Matter(qb64b=raw[at:]).fullSize
        out.append(raw[at:at + n])
        at += n
    return out


def together(ps, d):
    """A body of parts, its count and identifier put right."""
    body = b"".join(ps[1:])
    body = body.replace(d.encode(), DUMMY.encode())
    head = ps[0][:2] + b64(len(body) // 4, 2).encode() if ps[0][1:2] != b"-" else ps[0][:3] + b64(len(body) // 4, len(ps[0]) - 3).encode()
    return (head + body).replace(DUMMY.encode(), said(head + body).encode())


def embedded(x, top=True):
    """The identifiers within what is expanded in a body."""
    out = []
    for k, v in x.items():
        if isinstance(v, dict):
            out += embedded(v, False)
        elif isinstance(v, list):
            if top and k == "A":
                out += v[:1]
            out += [e for y in v if isinstance(y, dict) for e in embedded(y, False)]
        elif k in ("d", "$id") and not top:
            out.append(v)
    return [e for e in out if isinstance(e, str)]


def spoil(w, x, deep):
    """Another identifier in something expanded in a body; nothing if nothing is."""
    x = json.loads(json.dumps(x))
    r = w.rng
    if isinstance(x, list):
        els = [e for e in x if isinstance(e, dict)]
        if deep and els:
            r.choice(els)["d"] = w.dig()
        else:
            x[0] = w.dig()
        return x
    at, k = x, "d" if "d" in x else "$id"
    while deep:
        subs = [v for v in at.values() if isinstance(v, dict)]
        if not subs or k == "$id":
            break
        at = r.choice(subs)
        if "d" in at and r.random() < .6:
            break
    if k not in at:
        at = x
    at[k] = w.dig()
    return x


COMPACT = ("None", "acm", "ace", "act", "acg")
SECTION = ("sch", "att", "agg", "edg", "rul")
BASE = dict(said=True, isaid=True, inner=True, size="right", form="canonical", pre="digest")


def line(op, t, fields, **kw):
    return dict(op=op, e="op", b=dict(BASE, proto=t[0], v=t[1], ilk=t[2], fields=list(fields)), given=[], took=True, same=True, rest=True, how="", kind="") | kw


def saidsof(t, pre="digest"):
    return ("d", "i") if t[2] in ("icp", "dip", "vcp") and pre == "digest" else () if t[2] == "rct" else ("d",)


def some(rng, spec, kind):
    """Fields of a body of a type, as a maker may choose them."""
    opts = [f for f in spec["opts"] if rng.random() < .6 and not (kind == "CESR" and f == "ri")]
    for alt in spec["alts"]:
        if set(alt) <= set(opts):
            opts.remove(rng.choice(sorted(alt)))
    return [f for f in spec["alls"] if f in opts or f not in spec["opts"]]


def kinds(t):
    return ("JSON", "CBOR", "MGPK") + (("CESR",) if t[1] == 2 else ())


def make(t, c, kind, **kw):
    return serder(t)(sad=c, makify=True, proto=t[0], pvrsn=vrsn(t[1]), kind=kind, ilk=None if t[2] == "None" else t[2], **kw)


def trial(w, spec, kind):
    """Lines about a body of a type in a serialization: made, read in every way, and damaged."""
    r = w.rng
    t = tuple(spec["t"])
    fields = some(r, spec, kind)
    c = w.contents(t, fields, kind)
    sa = saidsof(t)
    out = []
    # made, of fields given in any order
    given = list(fields)
    extra = {}
    if r.random() < .25:
        if r.random() < .5 and kind != "CESR":
            extra = {r.choice(["zz", "x1"]): "more"}
        else:
            for f in spec["alls"]:
                if f not in c and not (kind == "CESR" and f == "ri"):
                    extra[f] = w.contents(t, [f], kind)[f]
                    break
    given += list(extra)
    r.shuffle(given)
    gc = {f: (c | extra)[f] for f in given}
    l = line("make", t, [], given=given, kind=kind)
    try:
        s = make(t, gc, kind)
    except Exception as e:
        s = None
        l |= dict(took=False, error=repr(e.__cause__ or e)[:200])
    if s:
        l["b"]["fields"] = list(s.sad)
        order = [f for f in spec["alls"] if f in gc] + [f for f in given if f not in spec["alls"]]
        gc = {f: gc[f] for f in order}
        want = gc | {f: s.said for f in sa} | dict(v=s.sad.get("v"))
        ok = equal(s.sad, want) and s.size == len(s.raw)
        if kind == "CESR":
            low = s
            if t[2] in COMPACT and t[0] == "ACDC":
                flat = {f: x if f not in ("s", "a", "e", "r", "A") or isinstance(x, str) else x[0] if isinstance(x, list) else x.get("d", x.get("$id"))
                        for f, x in gc.items()}
                low = make(t, flat, kind)
            ok = ok and s.said == low.said and (not sa or natsaid(low.raw, s.said) == s.said)
        else:
            ok = ok and s.raw == write(t, gc, kind, sa)[0]
        if ok and t[1] == 2 and t[0] == "ACDC" and t[2] in COMPACT:
            k = make(t, gc, kind, compactify=True)
            ok = k.said == s.said and list(k.sad) == list(s.sad) and not any(isinstance(k.sad[f], (dict, list)) for f in "saerA" if f in k.sad)
        l["same"] = bool(ok)
    out.append(l)
    # written here (or natively made) and read
    if kind == "CESR":
        s = make(t, dict(c), kind)
        raw, body = s.raw, c | {f: s.said for f in sa} | dict(v=s.sad["v"])
    else:
        raw, body = write(t, c, kind, sa)
    for how in ("only", "bytes", "strip") + (("binary",) if kind == "CESR" else ()):
        out.append(line("read", t, fields, kind=kind, **take(t, raw, body, kind, how, r, body)))
    # a byte changed, and cut short
    if sa:
        for _ in range(4):
            at = r.randrange(len(raw))
            safe = [(m, m + len(e)) for e in set(embedded(body)) for m in finds(raw, e.encode())] if t[0] == "ACDC" and t[1] == 2 and t[2] in COMPACT else []
            if any(a <= at < z for a, z in safe):
                continue
            bad = bytearray(raw)
            bad[at] = r.choice([x for x in (B64.encode() if kind == "CESR" or r.random() < .5 else bytes(range(256))) if x != bad[at]])
            z = take(t, bytes(bad), body, kind, "only", r)
            l = line("read", t, fields, kind=kind, **(z | dict(same=True)))
            l["b"]["form"] = "flipped"
            out.append(l | dict(at=at, now=bad[at]))
    bad = raw[:r.randrange(1, len(raw))]
    l = line("read", t, fields, kind=kind, **(take(t, bad, body, kind, "only", r) | dict(same=True)))
    l["b"]["form"] = "cut"
    out.append(l)
    # the same said in other bytes, no more of them
    f = [f for f in fields if isinstance(c[f], dict) and f in "qae"]
    if f and kind in ("JSON", "MGPK") and not (t[1] == 2 and t[0] == "ACDC"):
        raw2, body2 = write(t, c | {f[0]: c[f[0]] | dict(k=100.0 if kind == "JSON" else 256)}, kind, sa)
        a, z = (b"100.0", b"1.0e2") if kind == "JSON" else (b"\xcd\x01\x00", b"\xd1\x01\x00")
        if raw2.count(a) == 1:
            l = line("read", t, fields, kind=kind, **(take(t, raw2.replace(a, z), body2, kind, "only", r)))
            l["b"]["form"] = "respelled"
            out.append(l)
    # identifiers of what is expanded
    if t[1] == 2 and t[2] in SECTION and kind != "CESR":
        f = fields[-1]
        raw2, body2 = write(t, c | {f: spoil(w, c[f], r.random() < .5)}, kind, sa)
        l = line("read", t, fields, kind=kind, **(take(t, raw2, body2, kind, "only", r)))
        l["b"]["inner"] = False
        out.append(l)
    # prefixes
    if "i" in fields:
        pre = r.choice(["basic", "basicnt", "xbasic", "junk"])
        if not (pre == "basicnt" and t[2] in ("rot", "drt", "dip") or pre == "xbasic" and t[2] != "icp" or kind == "CESR" and pre == "junk" or t[2] == "vcp"):
            c2 = w.contents(t, fields, kind, pre)
            if kind == "CESR":
                try:
                    raw3 = make(t, c2, kind, verify=False)
                    raw3, body3 = raw3.raw, dict(raw3.sad)
                except Exception:
                    raw3 = None
            else:
                raw3, body3 = write(t, c2, kind, saidsof(t, pre))
            if raw3:
                l = line("read", t, fields, kind=kind, **take(t, raw3, body3, kind, "only", r, body3))
                l["b"]["pre"] = pre
                out.append(l)
    # native bodies with a part too many or too few
    if kind == "CESR" and sa and ps_fixed(raw):
        ps = parts(raw)
        for _ in range(2):
            k = r.randrange(2, len(ps))
            qs = ps[:k] + ps[k + 1:] if r.random() < .5 else ps[:k + 1] + [r.choice([ps[k], b"1AAP", b"MAAA"])] + ps[k + 1:]
            bad = together(qs, body["d"])
            z = take(t, bad, dict(body, d=""), kind, "only", r)
            l = line("read", t, fields, kind=kind, **(z | dict(same=True)))
            l["b"]["form"] = "other"
            out.append(l | dict(at=k))
    return out


def ps_fixed(raw):
    return raw[:2] == b"-F"


def finds(raw, x):
    at = raw.find(x)
    while at >= 0:
        yield at
        at = raw.find(x, at + 1)


def altered(w, b, kind):
    """The line of a body altered as the specification says."""
    r = w.rng
    t = (b["proto"], b["v"], b["ilk"])
    c = w.contents(t, b["fields"], kind)
    off = dict(right=0, short=-3, long=3)[b["size"]]
    wrong = {} if b["said"] else dict(d=r.choice([w.dig(), w.dig(), w.key(), w.nonce(), "a" + w.dig()[1:], ""]))
    wrong |= {} if b["isaid"] else dict(i=w.dig())
    form, vkind = b["form"], None
    if form == "kind":
        vkind = r.choice([k for k in ("JSON", "CBOR", "MGPK") if k != kind])
    if form == "twice" and kind != "JSON":
        form = "padded"
    raw, body = write(t, c, kind, saidsof(t), wrong, off, form, vkind)
    return dict(op="read", e="op", b=b, given=[], kind=kind, **take(t, raw, body, kind, r.choice(["only", "bytes", "strip"]), r, body))
