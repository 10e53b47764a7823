"""Worlds of CESR streams for spec/Stream.tla and a driver that gives them, cut into pieces, to the real Parser."""
from base64 import urlsafe_b64decode, urlsafe_b64encode as encodeB64

import keri_env  # noqa: F401
from keri.acdc import messaging
from keri.core import eventing, parsing
from keri.core.coring import Dater, Diger, Kinds, Labeler, Noncer, Number, Pather, Prefixer, Seqner, Texter, Verser
from keri.core.counting import Counter
from keri.core.indexing import Siger
from keri.core.signing import Signer
from keri.core.structing import BlindState, BoundState, FirstSeen, SealEvent, SealKind, SealSource, TypeMedia
from keri.help import helping
from keri.kering import Colds, ValidationError, Vrsn_1_0, Vrsn_2_0
from keri.vc import proving
from keri.vdr import eventing as viring

FIELDS = ("sigers", "wigers", "cigars", "rsgs", "tsgs", "lsgs", "frcs", "sscs", "ssts", "tdcs", "bsqs", "bsss", "tmqs", "ptds", "essrs")
PROFILE = dict(units=(1, 7), bad=.15, nest=.25)


def S(n, t=True):
    return Signer(raw=Diger(ser=b"stream %d" % n).raw, transferable=t)


KEYS = [S(n) for n in range(6)]
NKEYS = [S(n, False) for n in range(10, 16)]
DIGS = [Diger(ser=b"dig %d" % n) for n in range(8)]
PRES = [Prefixer(qb64=Diger(ser=b"pre %d" % n).qb64) for n in range(4)] + [Prefixer(qb64=NKEYS[0].verfer.qb64)]
DT = "2024-03-%02dT01:02:03.000000+00:00"
_POOL = []


def pool():
    """Message bodies of every kind, <<serder, ilk, major version>>."""
    if _POOL:
        return _POOL
    dt = DT % 5
    regk = DIGS[3].qb64
    for v, kinds in ((Vrsn_1_0, (Kinds.json, Kinds.cbor, Kinds.mgpk)), (Vrsn_2_0, (Kinds.json, Kinds.cbor, Kinds.mgpk, Kinds.cesr))):
        for k in kinds:
            kw = dict(version=v, kind=k)
            for n in range(2):
                icp = eventing.incept(keys=[KEYS[n].verfer.qb64], ndigs=[Diger(ser=KEYS[n + 1].verfer.qb64b).qb64], code="E", **kw)
                made = [icp,
                        eventing.rotate(pre=icp.pre, keys=[KEYS[n + 1].verfer.qb64], dig=icp.said, sn=1 + n,
                                        ndigs=[Diger(ser=KEYS[n + 2].verfer.qb64b).qb64], **kw),
                        eventing.interact(pre=icp.pre, dig=icp.said, sn=300 + n, **kw),
                        eventing.receipt(pre=icp.pre, sn=n, said=icp.said, **kw),
                        eventing.query(pre=icp.pre, route=("ksn", "logs")[n], query=dict(i=icp.pre, src=icp.pre), stamp=dt, **kw),
                        eventing.query(pre=icp.pre, route=("tels", "tsn")[n], query=dict(i=icp.pre, ri=regk), stamp=dt, **kw),
                        eventing.reply(pre=icp.pre, route="/loc/scheme", data=dict(eid=icp.pre, scheme="http", url=f"http://u{n}/"), stamp=dt, **kw),
                        eventing.exchange(sender=icp.pre, receiver=PRES[n].qb64, route="/x", attributes=dict(m=f"m{n}"), stamp=dt,
                                          **(kw | (dict(xid=DIGS[6].qb64, prior=DIGS[7].qb64) if k == Kinds.cesr else {})))]
                if v.major == 1 and k == Kinds.json:
                    vcp = viring.incept(icp.pre, nonce=DIGS[n].qb64, version=v, kind=k)
                    iss = viring.issue(vcdig=DIGS[n].qb64, regk=regk, version=v, kind=k, dt=dt)
                    made += [vcp, iss, viring.revoke(vcdig=DIGS[n].qb64, regk=regk, dig=iss.said, version=v, kind=k, dt=dt),
                             proving.credential(schema=DIGS[4].qb64, issuer=icp.pre, data=dict(a=f"x{n}", dt=dt), recipient=icp.pre, status=regk,
                                                version=v, kind=k)]
                if v.major == 2:
                    made += [eventing.prod(pre=icp.pre, route="/p", replyRoute="/r", query=dict(q=f"y{n}"), stamp=dt, **kw),
                             eventing.bare(pre=icp.pre, route="/b", data=dict(q=f"y{n}"), stamp=dt, **kw),
                             messaging.regcept(icp.pre, uuid=Noncer(raw=bytes([n]) * 16).qb64, stamp=dt, kind=k)]
                for s in made:
                    _POOL.append((s, s.ilk or "acdc", v.major, s.sad.get("r", "") if s.ilk == "qry" else ""))
    return _POOL


# ---------------------------------------------------------------- attachments
def num(rng):
    return Number(num=rng.choice((0, 1, 5, 255, 256, 70000, 2**40)))


def ix(rng, ser, of=KEYS + NKEYS):
    return rng.choice(of).sign(ser, index=rng.choice((0, 1, 2, 63, 64, 4000)))


def sigs(rng, ser, lo=1):
    return [ix(rng, ser) for _ in range(rng.randint(lo, 3))]


def few(rng, f):
    return [f() for _ in range(rng.choice((1, 1, 2, 3)))]


def attach(rng, ser, gv, must):
    """Attachments by field of what the parser hands on."""
    a = {}
    names = {"essrs", "ptds", "sigers", "wigers", "cigars", "rsgs", "tsgs", "lsgs", "frcs", "sscs", "ssts"} | ({"tdcs", "bsqs", "bsss", "tmqs"} if gv == 2 else set())
    for f in sorted(names):
        if f not in must and rng.random() > .22:
            continue
        pre, dig = lambda: rng.choice(PRES), lambda: rng.choice(DIGS)
        nn = lambda: Noncer(raw=bytes([rng.randint(0, 255)]) * 16)
        lab = lambda: Labeler(label=rng.choice(("issued", "revoked", "a_b_c", "x")))
        make = dict(
            sigers=lambda: ix(rng, ser), wigers=lambda: ix(rng, ser, NKEYS),
            cigars=lambda: rng.choice(NKEYS).sign(ser),
            rsgs=lambda: (pre(), num(rng), dig(), sigs(rng, ser)), tsgs=lambda: (pre(), num(rng), dig(), sigs(rng, ser)),
            lsgs=lambda: (pre(), sigs(rng, ser)),
            frcs=lambda: FirstSeen(f=num(rng), dt=Dater(dts=DT % rng.randint(1, 9))),
            sscs=lambda: SealSource(s=num(rng), d=dig()), ssts=lambda: SealEvent(i=pre(), s=num(rng), d=dig()),
            tdcs=lambda: SealKind(t=Verser(proto="KERI", pvrsn=Vrsn_2_0), d=dig()),
            bsqs=lambda: BlindState(d=dig(), u=nn(), td=nn(), ts=lab()),
            bsss=lambda: BoundState(d=dig(), u=nn(), td=nn(), ts=lab(), bn=num(rng), bd=nn()),
            essrs=lambda: Texter(text=rng.choice(("e", "essr here", "w" * 40))),
            ptds=lambda: bytes(Pather(path=rng.choice(("/a", "/a/b", "/e/acdc"))).qb64b + dig().qb64b),
            tmqs=lambda: TypeMedia(d=dig(), u=nn(), mt=lab(), mv=Texter(text=rng.choice(("", "hi there", "z" * 70)))))[f]
        a[f] = [make() for _ in range(rng.choice((1, 1, 2, 3)))]
    return a


def tok(x):
    """One attached thing as text."""
    if isinstance(x, (tuple, list)):
        return "(" + " ".join(tok(y) for y in x) + ")"
    if x.__class__.__name__ == "Cigar":
        return x.verfer.qb64 + "+" + x.qb64
    if isinstance(x, (Seqner,)):
        return f"n{x.sn}"
    if isinstance(x, Number):
        return f"n{x.num}"
    if isinstance(x, Dater):
        return x.dts
    if isinstance(x, (bytes, bytearray)):
        try:
            return bytes(x).decode("ascii")
        except UnicodeDecodeError:
            return encodeB64(bytes(x)).decode()
    return x.qb64


class Case:
    """Interned tokens and the stream of one world."""
    def __init__(self):
        self.toks, self.msgs = {}, {}

    def t(self, x):
        return self.toks.setdefault(tok(x), len(self.toks) + 1)

    def atts(self, a):
        return {f: [self.t(x) for x in a[f]] for f in FIELDS if a.get(f)}

    def nests(self, kw):
        return [{"m": self.msgs.get(d["serder"].raw, 0), "a": self.atts(d), "n": self.nests(d)} for d in kw.get("nests") or []]


class Sink:
    """Stands for what the parser hands messages to; remembers what it is given."""
    def __init__(self, name, case, out, fail):
        self._ = (name, case, out, fail)

    def __getattr__(self, method):
        name, case, out, fail = self._

        def take(kwa=None, **kw):
            kw = dict(kwa or kw)
            d = {"to": name, "f": method, "m": case.msgs.get(kw["serder"].raw, 0), "a": case.atts(kw), "n": case.nests(kw), "x": {},
                 "local": bool(kw.get("local"))}
            pairs = dict(first=("firner", "dater"), deli=("delsner", "delsger"), seal=("seqner", "saider"), src=("source", "sigers"))
            for k, names in pairs.items():
                got = [kw.get(n) for n in names]
                if k == "seal" and kw.get("prefixer") is not None:
                    got = [kw["prefixer"]] + got
                d["x"][k] = case.t(tuple(got)) if all(g is not None for g in got) else 0
            if kw.get("source") is None:
                d["x"]["src"] = 0
            else:
                d["a"].pop("sigers", None)
            out.append(d)
            if d["m"] in fail:
                raise ValidationError("as told")
        return take


# ---------------------------------------------------------------- streams
NEED = {"rct": ("cigars",), "rpy": ("tsgs",), "qry": ("lsgs",), "exn": ("cigars",)}
V = {1: Vrsn_1_0, 2: Vrsn_2_0}
BONDS = ("frcs", "sscs", "ssts", "tdcs", "bsqs", "bsss", "tmqs")


def chosen(rng, case, gv, top):
    """A message and what is attached: as it is for the specification, and as keywords of messagize."""
    serder, ilk, major, route = rng.choice([p for p in pool() if p[2] <= min(gv, top)])
    must = set()
    if rng.random() < .85:
        must = {"sigers"} if ilk in ("icp", "rot", "ixn") else {rng.choice(("cigars", "tsgs", "wigers", "rsgs"))} if ilk == "rct" \
            else {rng.choice(("lsgs", "cigars"))} if ilk == "qry" else set(NEED.get(ilk, ()))
    a = attach(rng, serder.raw, gv, must)
    if not set(a) - {"essrs", "ptds"}:
        a |= attach(rng, serder.raw, gv, {"sigers"})
    bonds = [b for f in BONDS for b in a.get(f, ())]
    rng.shuffle(bonds)
    for f in BONDS:
        if f in a:
            a[f] = [b for b in bonds if any(b is y for y in a[f])]
    kw = {f: a[f] for f in ("sigers", "wigers", "cigars", "rsgs", "tsgs", "lsgs") if f in a} | {"bonds": bonds or None}
    return serder, ilk, major, route, a, kw


def extras(a, gv):
    """Groups messagize does not make."""
    out = bytearray()
    if a.get("essrs"):
        raw = b"".join(t.qb64b for t in a["essrs"])
        out += Counter(code="ESSRPayloadGroup", count=len(a["essrs"]) if gv == 1 else len(raw) // 4, version=V[gv]).qb64b + raw
    for p in a.get("ptds", ()):
        out += Counter.enclose(qb64=p, code="PathedMaterialCouples", version=V[gv])
    return out


def unit(rng, case, at, enc, nest=0):
    """A message with attachments set off as enc in a stream of version at, as text, where its counted part begins, and what it is."""
    gv = rng.choice((1, 2)) if at == 2 and enc == "group" and rng.random() < .2 else 2 if enc == "body" and at == 2 else at
    if enc in ("group", "body") and at == 1 and rng.random() < .1:
        gv = 2
    serder, ilk, major, route, a, kw = chosen(rng, case, gv, at if enc == "group" else gv)
    nests, subs = [], []
    if gv == 2 and enc != "bare" and rng.random() < nest:
        for _ in range(rng.choice((1, 1, 2))):
            u, raw, _, _ = unit(rng, case, 2, "body", nest / 2)
            nests.append({k: u[k] for k in "man"})
            subs.append(raw)
    m = case.msgs.setdefault(serder.raw, len(case.msgs) + 1)
    n = len(serder.raw)
    if gv == at and not subs and not set(a) & {"essrs", "ptds"} and (gv == 2 or enc != "body") and rng.random() < .5 or enc == "bare":
        a = {f: x for f, x in a.items() if f not in ("essrs", "ptds")}
        raw = eventing.messagize(serder, framed=enc == "bare", nested=enc == "body", gvrsn=V[gv], **kw)
        start = n if enc != "body" else 0
        start += 8 if raw[start:start + 2] == b"--" else 4
    else:
        aims = eventing.messagize(serder, framed=True, gvrsn=V[gv], **kw)[n:] + extras(a, gv) + b"".join(subs)
        if gv != at or rng.random() < .1:
            aims = Counter.makeGVC(version=V[gv]) + aims if enc == "group" else aims
        body = b""
        if enc == "body":
            body = bytes(serder.raw) if serder.kind == Kinds.cesr else \
                bytes(Counter.enclose(qb64=Texter(raw=serder.raw).qb64b, code="NonNativeBodyGroup", version=V[gv]))
            if gv != at or rng.random() < .1:
                body = Counter.makeGVC(version=V[gv]) + body
        raw = Counter.enclose(qb64=bytes(body) + bytes(aims), code="AttachmentGroup" if enc == "group" else "BodyWithAttachmentGroup",
                              version=V[at])
        start = 8 if raw[:2] == b"--" else 4
        if enc == "group":
            raw = serder.raw + bytes(raw)
            start += n
    u = {"m": m, "ilk": ilk, "v": major, "enc": enc, "route": route, "a": case.atts(a), "n": nests, "fate": "ok", "g": 0}
    return u, bytearray(raw), start, serder


def bny(raw):
    return bytearray(urlsafe_b64decode(bytes(raw)))


def swap(raw, start, enc, serder):
    """The same in binary and where its counted part then begins."""
    if enc == "body" or serder.kind == Kinds.cesr:
        return bny(raw), start * 3 // 4
    n = len(serder.raw)
    return raw[:n] + bny(raw[n:]), n + (start - n) * 3 // 4


def damage(rng, raw, u, serder, start, text):
    """raw made into what u's fate says, or None."""
    raw = bytearray(raw)
    if u["fate"] == "said":
        if u["ilk"] == "rct" or u["enc"] == "body":
            return None                             # a receipt says what it is of, not what it is
        said = serder.said.encode()
        at = raw.find(said)
        if at < 0:
            return None
        j = at + rng.randint(4, 40)
        raw[j] = ord("A") if raw[j] != ord("A") else ord("B")
    elif u["fate"] == "att":
        if u["enc"] == "bare" or start >= len(raw):
            return None
        for _ in range(rng.choice((1, 1, 3))):
            hi = len(raw) if rng.random() < .5 else min(len(raw), start + 12)
            c = rng.choice(b"-_9zAZ#~\xff\x00") if rng.random() < .7 else rng.randint(0, 255)
            raw[rng.randrange(start, hi)] = rng.choice(b"-_9zAZ") if u["g"] else c      # a group may be made binary yet
    elif u["fate"] == "junk":
        raw = bytearray(rng.choice((b"\xe0\xff\x00", b"{\"junk\": 1}", b"AAAA", b"!!", b"{", b"-AAB")))
    return raw


def made(rng, case, o, at, enc, g=0):
    """One unit, with its fate, as bytes."""
    u, raw, start, serder = unit(rng, case, at, enc, o["nest"])
    text = True
    if not g and rng.random() < .35:
        raw, start = swap(raw, start, enc, serder)
        text = False
    u["g"] = g
    if rng.random() < o["bad"]:
        u["fate"] = rng.choice(("proc", "proc", "att", "att", "att", "said", "junk"))
        if u["fate"] == "junk" and g:
            u["fate"] = "att"
        if u["fate"] != "proc":
            hurt = damage(rng, raw, u, serder, start, text)
            u["fate"], raw = ("ok", raw) if hurt is None else (u["fate"], hurt)
    return u, raw, text


def stream(rng, o):
    """A stream, as case, units, bytes of each part of it."""
    case, us, raws = Case(), [], []
    frame = rng.random() < .3
    at, groups = 2, 0
    for _ in range(rng.randint(*o["units"])):
        gv = rng.choice((1, 2, 2)) if rng.random() < .4 else at
        ver = b""
        if gv != at or rng.random() < .1:
            ver, at = bytes(Counter.makeGVC(version=V[gv])), gv
        if rng.random() < .2:
            groups += 1
            raw, few, ok = b"", [], True
            inner = rng.choice((1, 2)) if rng.random() < .2 else gv
            for _ in range(rng.randint(1, 3)):
                u, r, _ = made(rng, case, o, inner, "body", groups)
                if rng.random() < .2 and u["fate"] in ("ok", "proc"):
                    r = Counter.enclose(qb64=r, code="GenericGroup", version=V[inner])
                u["at"] = len(raws)
                few.append(u)
                raw += bytes(r)
            if inner != gv or rng.random() < .2:
                raw = bytes(Counter.makeGVC(version=V[inner])) + raw
            raw = ver + bytes(Counter.enclose(qb64=raw, code="GenericGroup", version=V[gv]))
            if rng.random() < .3:
                try:
                    raw = bny(raw)
                except ValueError:
                    pass
            us += few
            raws.append(bytes(raw))
            continue
        enc = rng.choice(("group", "bare", "body") if frame else ("group", "body"))
        u, raw, text = made(rng, case, o, gv, enc)
        if u["fate"] == "junk":
            ver = b""
            at = at if not us else at
        if ver and not text and (enc == "body" or raw[:1] not in b"{"):
            ver = bytes(bny(ver))
        u["at"] = len(raws)
        us.append(u)
        raws.append(ver + bytes(raw))
    return case, us, raws, frame


def run(rng, o):
    """One stream given to the parser: a line of a trace."""
    case, us, raws, frame = stream(rng, o)
    out = []
    fail = {u["m"] for u in us if u["fate"] == "proc"}
    for u in us:
        if u["m"] in fail and u["fate"] == "ok":
            u["fate"] = "proc"
    local = rng.random() < .5
    psr = parsing.Parser(framed=frame, **{n: Sink(n, case, out, fail) for n in ("kvy", "tvy", "exc", "rvy", "vry")})
    cut = 1
    left = 0
    if frame:
        j = 0
        while j < len(raws):
            k = j + rng.choice((1, 1, 1, 2, 3))
            for i in range(j + 1, min(k, len(raws))):   # what is bare is not followed by junk in its frame
                if any(u["at"] == i and u["fate"] == "junk" for u in us) and any(u["at"] == i - 1 and u["enc"] == "bare" for u in us):
                    k = i
                    break
            ims = bytearray(b"".join(raws[j:k]))
            how = rng.random()
            if how < .5:
                psr.parse(ims=ims, local=local)
            elif k == j + 1 and how < .7 and all(u["g"] == 0 for u in us if u["at"] == j):
                psr.parseOne(ims=ims, local=local)
            else:
                psr.ims.extend(ims)
                psr.local = local
                psr.parse(local=local)
                left += len(psr.ims)
                psr.ims.clear()
                ims = b""
            left += len(ims)
            j = k
    else:
        data = b"".join(raws)
        cut = rng.choice((1, 2, 3, 6, len(data)))
        ends = sorted(rng.sample(range(1, len(data)), min(cut - 1, len(data) - 1))) + [len(data)]
        if rng.random() < .4:                       # at the seams of the units, and next to them
            seams, n = [], 0
            for r in raws[:-1]:
                n += len(r)
                seams.append(n + rng.choice((0, 0, 1, -1, 4, 8)))
            ends = sorted({e for e in seams if 0 < e < len(data)} | {len(data)})
        cut = len(ends)
        psr.local = local
        go = psr.parsator(local=local)
        at = 0
        for e in ends:
            psr.ims.extend(data[at:e])
            at = e
            for _ in range(2 if cut > 50 else 12):
                next(go)
        for _ in range(60 + 4 * len(us)):
            next(go)
        left = len(psr.ims)
        go.close()
    return {"us": us, "got": out, "left": left, "cut": cut, "local": local, "frame": frame}


def script(rng, h):
    """A stream of units of given kinds, cut where it is said, given to the parser: a line of a trace."""
    case, us, raws = Case(), [], []
    o = dict(PROFILE, bad=0, nest=.1)
    at = rng.choice((1, 2))
    whole = bytes(Counter.makeGVC(version=V[at]))
    pieces, group = [], None
    for j, k in enumerate(h["us"]):
        for _ in range(200):
            u, raw, start, serder = unit(rng, case, at, k["enc"], o["nest"])
            u["fate"], u["g"] = k["fate"], k["g"]
            text = bool(k["g"]) or rng.random() < .7
            if not text:
                raw, start = swap(raw, start, k["enc"], serder)
            if k["fate"] in ("att", "junk"):
                raw = damage(rng, raw, u, serder, start, text)
            if raw is not None:
                break
        us.append(u)
        if k["fate"] == "junk":
            pieces.append(bytes(raw))
        elif k["g"]:
            if group is None:
                group = []
            group.append(bytes(raw))
            if j + 1 == len(h["us"]) or not h["us"][j + 1]["g"]:
                enc = bytes(Counter.enclose(qb64=b"".join(group), code="GenericGroup", version=V[at]))
                pieces += [enc[:len(enc) - len(b"".join(group))]] + group
                group = None
        else:
            n = len(serder.raw) if text or serder.kind != Kinds.cesr else len(serder.raw) * 3 // 4
            c = [n] if k["enc"] == "group" else []
            ends = [0] + c + [start, len(raw)]
            pieces += [bytes(raw[a:b]) for a, b in zip(ends, ends[1:])]
    pieces[0] = whole + pieces[0]
    chunks, i = [], 0
    for k in h["cuts"]:
        chunks.append(b"".join(pieces[i:i + k]))
        i += k
    fail = {u["m"] for u in us if u["fate"] == "proc"}
    for u in us:
        if u["m"] in fail and u["fate"] == "ok":
            u["fate"] = "proc"
    out, local = [], rng.random() < .5
    psr = parsing.Parser(framed=False, **{n: Sink(n, case, out, fail) for n in ("kvy", "tvy", "exc", "rvy", "vry")})
    psr.local = local
    go = psr.parsator(local=local)
    for x in chunks:
        psr.ims.extend(x)
        for _ in range(12 + 4 * len(us)):
            next(go)
    left = len(psr.ims)
    go.close()
    return {"us": us, "got": out, "left": left, "cut": len(chunks), "local": local, "frame": False}
