"""Helpers of the demonstrations about the keystore."""
from kh import *
from keri.app import keeping
SALT = signing.Salter(raw=b"0123456789abcdef").qb64
def seed(n):
    s = signing.Signer(raw=bytes([n]) * 32, transferable=False)
    return s.verfer.qb64, s.qb64
class Ks:
    n = 0
    def __init__(s, en=0, **kw):
        Ks.n += 1
        s.ks = keeping.Keeper(name=f"kd{os.getpid()}x{Ks.n}", temp=True, reopen=True)
        a, b = seed(en) if en else (None, None)
        s.m = keeping.Manager(ks=s.ks, seed=b, aeid=a, salt=SALT, **kw)
    def icp(s, **kw):
        v, d = s.m.incept(temp=True, **kw); return v[0].qb64, v, d
    def rot(s, pre, **kw): return s.m.rotate(pre, temp=True, **kw)
    def pubs(s, pre): return s.ks.sits.get(pre)
    def vals(s, sub):
        with s.ks.env.begin(db=sub.sdb) as txn: return [(bytes(k), bytes(v)) for k, v in txn.cursor()]
def made(path, tier="low", t=True):
    return signing.Salter(qb64=SALT, tier=tier).signer(path=path, transferable=t, tier=tier, temp=True).verfer.qb64
def fails(f, *pa, **kw):
    try: f(*pa, **kw)
    except Exception as ex: return type(ex).__name__
    return None
