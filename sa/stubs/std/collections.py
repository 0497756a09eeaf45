class NT:
    """tuples with names"""
    _fields = ()

    def _values(self):
        return tuple([getattr(self, f) for f in self._fields])

    def __getitem__(self, i):
        return self._values()[i]

    def __iter__(self):
        return iter(self._values())

    def __len__(self):
        return len(self._fields)

    def __eq__(self, other):
        return self._values() == tuple(other)

    def __ne__(self, other):
        return self._values() != tuple(other)

    def __contains__(self, x):
        return x in self._values()

    def __add__(self, other):
        return self._values() + tuple(other)

    def _asdict(self):
        return {f: getattr(self, f) for f in self._fields}

    def _replace(self, **kw):
        d = self._asdict()
        d.update(kw)
        return self.__class__(**d)

    @classmethod
    def _make(cls, it):
        return cls(*it)

    def index(self, x):
        return self._values().index(x)

    def count(self, x):
        return self._values().count(x)


def Counter(it=()):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return CounterDict(d)


class CounterDict:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d.get(k, 0)

    def __setitem__(self, k, v):
        self.d[k] = v

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def keys(self):
        return self.d.keys()

    def values(self):
        return self.d.values()

    def items(self):
        return self.d.items()

    def get(self, k, d=None):
        return self.d.get(k, d)

    def update(self, it):
        for x in it:
            self.d[x] = self.d.get(x, 0) + 1

    def elements(self):
        return [k for k, n in self.d.items() for _ in range(n)]

    def most_common(self, n=None):
        r = sorted(self.d.items(), key=lambda kv: -kv[1])
        return r if n is None else r[:n]


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)

    def __contains__(self, k):
        return any(k in m for m in self.maps)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, v):
        self.maps[0][k] = v

    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            d.update(m)
        return iter(d)
