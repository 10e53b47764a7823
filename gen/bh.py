"""Helpers of the demonstrations about message bodies."""
from kh import *
import json
from keri.core import serdering
from keri.core.coring import Diger, Kinds
from keri.core.serdering import SerderACDC, SerderKERI
from keri.kering import Vrsn_1_0, Vrsn_2_0
V = {1: Vrsn_1_0, 2: Vrsn_2_0}
def dig(n): return Diger(ser=b"bh %d" % n).qb64
def dumps(x): return json.dumps(x, separators=(",", ":"), ensure_ascii=False).encode()
def made(cls, v, ilk, kind=Kinds.json, **sad):
    return cls(sad=dict({"v": ""}, **({"t": ilk} if ilk else {}), d="", **sad), makify=True, proto="KERI" if cls is SerderKERI else "ACDC", pvrsn=V[v], kind=kind, ilk=ilk)
def forged(s, edit, form=lambda raw: raw, pad=0):
    """Bytes of a body with its fields edited, then put right again: version string and said."""
    sad = edit(dict(s.sad))
    sad["d"] = "#" * 44
    n = len(dumps(sad)) + pad
    sad["v"] = sad["v"][:10] + "%06x_" % n if sad["v"].endswith("_") else sad["v"][:14] + "".join("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"[n >> k & 63] for k in (18, 12, 6, 0)) + "."
    sad["d"] = Diger(ser=dumps(sad)).qb64
    return form(dumps(sad))
def taken(cls, raw):
    try: return cls(raw=raw)
    except Exception: return None
