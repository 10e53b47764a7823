# Offline stand-in for py-lmdb 2.x: only the API that keri uses, with LMDB's semantics
# (byte-lexicographic order, named dbs, dupsort, 511 byte keys, snapshot read transactions,
# atomic write transactions, committed data surviving close/reopen of the same directory).
#
# Data is held per directory in REGISTRY, keyed by a token stored in <path>/data.mdb, so that
# removing the directory removes the data, as with the real library.
#
# Fault injection used by the crash harness: FAULT.arm(n) makes the n-th commit from now raise
# Crash *before* the transaction takes effect, and every later use of an open environment too.
import os
import uuid
from bisect import bisect_left, bisect_right
from sortedcontainers import SortedDict, SortedList

__version__ = "2.1.1-shim"
MAXKEY = 511


class Error(Exception):
    pass


class BadValsizeError(Error):
    pass


class ReadonlyError(Error):
    pass


class MapFullError(Error):
    pass


class NotFoundError(Error):
    pass


class BadTxnError(Error):
    pass


class DbsFullError(Error):
    pass


class Crash(BaseException):
    """Simulated process death at a commit boundary (BaseException: no handler swallows it)."""


class Fault:
    def __init__(self):
        self.left = None
        self.dead = False
        self.commits = 0

    def arm(self, n):
        self.left, self.dead = n, False

    def disarm(self):
        self.left, self.dead = None, False

    def commit(self):
        if self.dead:
            raise Crash("dead")
        self.commits += 1
        if self.left is not None:
            if self.left <= 0:
                self.dead = True
                raise Crash("crash point")
            self.left -= 1


FAULT = Fault()
REGISTRY = {}

# Committed writes of a watched named db: watch(env, name) returns the list they are appended to
# as ("put", key, value).
WATCH = {}


def watch(env, name):
    return WATCH.setdefault((id(env._stores), name.encode() if isinstance(name, str) else name), [])


def unwatch(env):
    for k in [k for k in WATCH if k[0] == id(env._stores)]:
        del WATCH[k]



class _Store:
    """One named db: plain -> SortedDict, dupsort -> SortedDict key -> SortedList of vals."""

    def __init__(self, dup):
        self.dup = dup
        self.map = SortedDict()
        self.readers = 0

    def clone(self):
        new = _Store(self.dup)
        if self.dup:
            new.map = SortedDict((k, SortedList(v)) for k, v in self.map.items())
        else:
            new.map = SortedDict(self.map)
        return new


class _Database:
    def __init__(self, env, name, dup):
        self.env, self.name, self.dup = env, name, dup

    def flags(self, *pa):
        return dict(reverse_key=False, dupsort=self.dup, integer_key=False,
                    integer_dup=False, dup_fixed=False)


def open(path, **kwa):
    return Environment(path, **kwa)


class Environment:
    def __init__(self, path, map_size=10485760, readonly=False, max_dbs=0, mode=0o755, **kwa):
        self._path, self._readonly, self._max_dbs, self._closed = path, readonly, max_dbs, False
        os.makedirs(path, exist_ok=True)
        data = os.path.join(path, "data.mdb")
        if not os.path.exists(data):
            with _open(data, "w") as f:
                f.write(uuid.uuid4().hex)
        with _open(data) as f:
            tok = f.read()
        self._stores = REGISTRY.setdefault(tok, {b"": _Store(False)})
        self._writing = False
        self._mapsize = map_size

    def open_db(self, key=None, txn=None, dupsort=False, **kwa):
        self._check()
        name = key or b""
        if name not in self._stores:
            if len(self._stores) > self._max_dbs:
                raise DbsFullError("MDB_DBS_FULL")
            if self._readonly:
                raise ReadonlyError("readonly")
            self._stores[name] = _Store(bool(dupsort))
        return _Database(self, name, self._stores[name].dup)

    def _check(self):
        if self._closed:
            raise Error("Attempt to operate on closed/deleted/dropped object.")
        if FAULT.dead:
            raise Crash("dead")

    def begin(self, db=None, write=False, buffers=False, parent=None):
        self._check()
        return Transaction(self, db, write, buffers)

    def close(self):
        self._closed = True

    def sync(self, force=False):
        pass

    def path(self):
        return self._path

    def max_key_size(self):
        return MAXKEY

    def info(self):
        return dict(map_size=self._mapsize)

    def stat(self):
        return dict(entries=len(self._stores[b""].map))

    def set_mapsize(self, n):
        self._mapsize = n

    def __enter__(self):
        return self

    def __exit__(self, *pa):
        self.close()


import builtins
_open = builtins.open


def _key(key):
    if isinstance(key, str):
        raise TypeError("a bytes-like object is required, not 'str'")
    key = bytes(key)
    if not key or len(key) > MAXKEY:
        raise BadValsizeError("mdb_put: MDB_BAD_VALSIZE: Unsupported size of key/DB name/data, "
                              "or wrong DUPFIXED size")
    return key


class Transaction:
    def __init__(self, env, db, write, buffers):
        self.env, self.write, self.buffers = env, write, buffers
        self.name = db.name if db is not None else b""
        if write and env._readonly:
            raise ReadonlyError("Permission denied")
        if write and env._writing:
            raise RuntimeError("shim: nested write transaction would deadlock")
        self.undo = []
        self.watched = []
        self.done = False
        self.held = {}
        if write:
            env._writing = True
        else:
            # A read transaction sees one snapshot; only the db it was begun on is used by keri.
            st = env._stores[self.name]
            st.readers += 1
            self.held[self.name] = st

    # -- store access
    def _name(self, db):
        return self.name if db is None else db.name

    def _rd(self, name):
        if self.done:
            raise BadTxnError("MDB_BAD_TXN")
        if not self.write:
            if name not in self.held:
                st = self.env._stores[name]
                st.readers += 1
                self.held[name] = st
            return self.held[name]
        return self.env._stores[name]

    def _wr(self, name):
        if self.done:
            raise BadTxnError("MDB_BAD_TXN")
        if not self.write:
            raise ReadonlyError("Permission denied")
        st = self.env._stores[name]
        if st.readers:
            new = st.clone()
            self.env._stores[name] = new
            self.undo.append(("store", name, st))
            st = new
        return st

    def _out(self, val):
        return memoryview(bytes(val)) if self.buffers else bytes(val)

    # -- context
    def __enter__(self):
        return self

    def __exit__(self, exc, *pa):
        if exc is None:
            self.commit()
        else:
            self.abort()

    def __del__(self):
        if not self.done:
            try:
                self.abort()
            except Exception:
                pass

    def _release(self):
        self.done = True
        if self.write:
            self.env._writing = False
        for st in self.held.values():
            st.readers -= 1
        self.held = {}

    def commit(self):
        if self.done:
            return
        if self.write and self.undo:
            try:
                FAULT.commit()
            except BaseException:
                self.abort()
                raise
        for log, key, value in self.watched:
            log.append(("put", key, value))
        self._release()

    def abort(self):
        if self.done:
            return
        for item in reversed(self.undo):
            if item[0] == "store":
                self.env._stores[item[1]] = item[2]
            elif item[0] == "set":  # plain: key had old (None absent)
                _, st, key, old = item
                if old is None:
                    st.map.pop(key, None)
                else:
                    st.map[key] = old
            elif item[0] == "adddup":
                _, st, key, val = item
                st.map[key].remove(val)
                if not st.map[key]:
                    del st.map[key]
            elif item[0] == "deldup":
                _, st, key, val = item
                st.map.setdefault(key, SortedList()).add(val)
        self._release()

    # -- api
    def get(self, key, default=None, db=None):
        key = _key(key)
        st = self._rd(self._name(db))
        if key not in st.map:
            return default
        return self._out(st.map[key][0] if st.dup else st.map[key])

    def put(self, key, value, dupdata=True, overwrite=True, append=False, db=None):
        key, value = _key(key), _val(value)
        st = self._wr(self._name(db))
        if st.dup:
            if len(value) > MAXKEY:
                raise BadValsizeError("mdb_put: MDB_BAD_VALSIZE")
            vals = st.map.get(key)
            if vals is not None:
                if not overwrite:
                    return False
                if value in vals:
                    return True if dupdata else False
            if vals is None:
                st.map[key] = SortedList([value])
            else:
                vals.add(value)
            self.undo.append(("adddup", st, key, value))
            return True
        old = st.map.get(key)
        if old is not None and not overwrite:
            return False
        st.map[key] = value
        if WATCH:
            log = WATCH.get((id(self.env._stores), self._name(db)))
            if log is not None:
                self.watched.append((log, key, value))
        self.undo.append(("set", st, key, old))
        return True

    def replace(self, key, value, db=None):
        old = self.get(key, db=db)
        self.put(key, value, db=db)
        return old

    def pop(self, key, db=None):
        old = self.get(key, db=db)
        if old is not None:
            self.delete(key, db=db)
        return old

    def delete(self, key, value=b"", db=None):
        key, value = _key(key), bytes(value)
        st = self._wr(self._name(db))
        if key not in st.map:
            return False
        if st.dup:
            vals = st.map[key]
            if value:
                if value not in vals:
                    return False
                doomed = [value]
            else:
                doomed = list(vals)
            for v in doomed:
                vals.remove(v)
                self.undo.append(("deldup", st, key, v))
            if not vals:
                del st.map[key]
            return True
        self.undo.append(("set", st, key, st.map[key]))
        del st.map[key]
        return True

    def drop(self, db, delete=True):
        st = self._wr(db.name)
        for key in list(st.map):
            self.delete(key, db=db)

    def stat(self, db):
        st = self._rd(db.name)
        return dict(entries=sum(len(v) for v in st.map.values()) if st.dup else len(st.map))

    def cursor(self, db=None):
        return Cursor(self, self._name(db))


def _val(value):
    if isinstance(value, str):
        raise TypeError("a bytes-like object is required, not 'str'")
    return bytes(value)


class Cursor:
    """Position is (key, val) by value, or None when unpositioned / past the end."""

    def __init__(self, txn, name):
        self.txn, self.name = txn, name
        self.pos = None
        self.past = False  # ran off the end

    def _st(self):
        return self.txn._rd(self.name)

    # primitive moves over (key, val) pairs
    def _load(self, key, first=True):
        st = self._st()
        if st.dup:
            self.pos = (key, st.map[key][0 if first else -1])
        else:
            self.pos = (key, st.map[key])
        return True

    def _none(self):
        self.pos = None
        return False

    def first(self):
        st = self._st()
        return self._load(st.map.keys()[0]) if st.map else self._none()

    def last(self):
        st = self._st()
        return self._load(st.map.keys()[-1], first=False) if st.map else self._none()

    def set_key(self, key):
        key = _key(key)
        return self._load(key) if key in self._st().map else self._none()

    def set_range(self, key):
        key = bytes(key)
        if not key:
            return self.first()
        st = self._st()
        i = st.map.bisect_left(key)
        return self._load(st.map.keys()[i]) if i < len(st.map) else self._none()

    def set_key_dup(self, key, value):
        st = self._st()
        key, value = _key(key), bytes(value)
        if key in st.map and value in st.map[key]:
            self.pos = (key, value)
            return True
        return self._none()

    def next_dup(self):
        st = self._st()
        if self.pos is None or not st.dup:
            return False if self.pos is None else self._none()
        key, val = self.pos
        vals = st.map.get(key, [])
        i = bisect_right(vals, val)
        if i < len(vals):
            self.pos = (key, vals[i])
            return True
        return self._none()

    def next_nodup(self):
        st = self._st()
        if self.pos is None:
            return self.first()
        i = st.map.bisect_right(self.pos[0])
        return self._load(st.map.keys()[i]) if i < len(st.map) else self._none()

    def prev_nodup(self):
        st = self._st()
        if self.pos is None:
            return self.last()
        i = st.map.bisect_left(self.pos[0]) - 1
        return self._load(st.map.keys()[i], first=False) if i >= 0 else self._none()

    def next(self):
        st = self._st()
        if self.pos is None:
            return self.first()
        if st.dup:
            key, val = self.pos
            vals = st.map.get(key, [])
            i = bisect_right(vals, val)
            if i < len(vals):
                self.pos = (key, vals[i])
                return True
        return self.next_nodup()

    def prev(self):
        st = self._st()
        if self.pos is None:
            return self.last()
        if st.dup:
            key, val = self.pos
            vals = st.map.get(key, [])
            i = bisect_left(vals, val) - 1
            if i >= 0:
                self.pos = (key, vals[i])
                return True
        return self.prev_nodup()

    def first_dup(self):
        return self._load(self.pos[0]) if self.pos else False

    def last_dup(self):
        return self._load(self.pos[0], first=False) if self.pos else False

    def count(self):
        st = self._st()
        return len(st.map[self.pos[0]]) if st.dup else 1

    def key(self):
        return self.txn._out(self.pos[0]) if self.pos else (memoryview(b"") if self.txn.buffers else b"")

    def value(self):
        return self.txn._out(self.pos[1]) if self.pos else (memoryview(b"") if self.txn.buffers else b"")

    def item(self):
        return (self.key(), self.value())

    def get(self, key, default=None):
        return self.value() if self.set_key(key) else default

    def put(self, key, val, dupdata=True, overwrite=True, append=False):
        res = self.txn.put(key, val, dupdata=dupdata, overwrite=overwrite, db=_Named(self.name))
        key = bytes(key)
        st = self._st()
        self.pos = (key, bytes(val) if st.dup and res else (st.map[key][0] if st.dup else st.map[key]))
        return res

    def replace(self, key, val):
        old = self.txn.replace(key, val, db=_Named(self.name))
        return old

    def delete(self, dupdata=False):
        if self.pos is None:
            return False
        key, val = self.pos
        st = self._st()
        dup = st.dup
        self.txn.delete(key, val if dup and not dupdata else b"", db=_Named(self.name))
        # cursor moves to the entry that followed the deleted one
        st = self._st()
        if dup and key in st.map:
            vals = st.map[key]
            i = bisect_left(vals, val)
            if i < len(vals):
                self.pos = (key, vals[i])
                return True
        i = st.map.bisect_right(key)
        if i < len(st.map):
            self._load(st.map.keys()[i])
        else:
            self.pos = None
        return True

    def _iter(self, move, keys, values, start):
        if self.pos is None:
            ok = start()
        else:
            ok = True
        while ok:
            if keys and values:
                yield self.item()
            elif keys:
                yield self.key()
            else:
                yield self.value()
            ok = move()

    def iternext(self, keys=True, values=True):
        return self._iter(self.next, keys, values, self.first)

    def iternext_dup(self, keys=False, values=True):
        return self._iter(self.next_dup, keys, values, lambda: False)

    def iternext_nodup(self, keys=True, values=False):
        return self._iter(self.next_nodup, keys, values, self.first)

    def iterprev(self, keys=True, values=True):
        return self._iter(self.prev, keys, values, self.last)

    def iterprev_dup(self, keys=False, values=True):
        def move():
            st = self._st()
            key, val = self.pos
            vals = st.map.get(key, [])
            i = bisect_left(vals, val) - 1
            if i >= 0:
                self.pos = (key, vals[i])
                return True
            return self._none()
        return self._iter(move, keys, values, lambda: False)

    def iterprev_nodup(self, keys=True, values=False):
        return self._iter(self.prev_nodup, keys, values, self.last)

    def __iter__(self):
        return self.iternext()

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *pa):
        pass


class _Named:
    def __init__(self, name):
        self.name = name
