class Mict:
    """Multi dict: insertion ordered, several values per key."""

    def __init__(self, items=(), **kwa):
        self._items = []
        if hasattr(items, "items"):
            items = items.items()
        for k, v in items:
            self.add(k, v)
        for k, v in kwa.items():
            self.add(k, v)

    def _n(self, k):
        return k

    def add(self, k, v):
        self._items.append((k, v))

    def __setitem__(self, k, v):
        self._items = [(a, b) for a, b in self._items if self._n(a) != self._n(k)]
        self._items.append((k, v))

    def __delitem__(self, k):
        self._items = [(a, b) for a, b in self._items if self._n(a) != self._n(k)]

    def __getitem__(self, k):
        for a, b in self._items:
            if self._n(a) == self._n(k):
                return b
        raise KeyError(k)

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def getall(self, k, default=None):
        vals = [b for a, b in self._items if self._n(a) == self._n(k)]
        if not vals and default is not None:
            return default
        if not vals:
            raise KeyError(k)
        return vals
    nab, nabone, nabfirst = get, get, get
    nabs, nabll = getall, getall

    def firsts(self):
        seen, out = set(), []
        for k, v in self._items:
            if self._n(k) not in seen:
                seen.add(self._n(k))
                out.append((k, v))
        return out

    def __contains__(self, k):
        return any(self._n(a) == self._n(k) for a, _ in self._items)

    def keys(self):
        return [k for k, _ in self._items]

    def values(self):
        return [v for _, v in self._items]

    def items(self):
        return list(self._items)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._items)

    def __bool__(self):
        return bool(self._items)

    def extend(self, items):
        for k, v in (items.items() if hasattr(items, "items") else items):
            self.add(k, v)
    update = extend


class Hict(Mict):
    def _n(self, k):
        return k.lower()
