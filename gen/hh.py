"""Helpers of the demonstrations about habitats."""
from kh import *
from keri.app import configing, habbing, keeping
SALT = signing.Salter(raw=b"0123456789abcdef").qb64
V1 = dict(version=Vrsn_1_0)
class House:
    n = 0
    def __init__(s, keep=False):
        House.n += 1
        s.name = f"hh{os.getpid()}x{House.n}"
        s.kw = dict(temp=False, headDirPath=HOME) if keep else dict(temp=True)
        s.open()
    def open(s):
        s.ks = keeping.Keeper(name=s.name, reopen=True, **s.kw)
        s.db = basing.Baser(name=s.name, reopen=True, **s.kw)
        cf = configing.Configer(name=s.name, temp=True, reopen=True)
        s.hby = habbing.Habery(name=s.name, ks=s.ks, db=s.db, cf=cf, temp=True, salt=SALT, **V1)
    def reopen(s):
        s.ks.env.close(); s.db.env.close(); s.open()
    def make(s, name, **kw): return s.hby.makeHab(name=name, **{**V1, **kw})
def rotate(hab, **kw): return hab.rotate(**{**V1, **kw})
def lots(h, hab):
    ps = h.ks.sits.get(hab.pre); return ps.old.pubs, ps.new.pubs, ps.nxt.pubs
def keys(hab): return [v.qb64 for v in hab.kever.verfers]
def secret(h, pub): return h.ks.pris.get(pub) is not None
def fails(f, *pa, **kw):
    try: f(*pa, **kw)
    except Exception as ex: return type(ex).__name__
    return None
