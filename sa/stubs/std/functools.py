class cached_property:
    def __init__(self, f):
        self.f = f
        self.name = f.__name__

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        v = self.f(obj)
        object.__setattr__(obj, self.name, v)
        return v


class lru_cached:
    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__
        self.__wrapped__ = f
        self.known = {}

    def __call__(self, *a, **k):
        key = (a, tuple([(n, k[n]) for n in sorted(k)]))
        if key in self.known:
            return self.known[key]
        v = self.f(*a, **k)
        self.known[key] = v
        return v

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        return partial(self, obj)

    def cache_clear(self):
        self.known.clear()


def partial(f, *a):
    return lambda *b, **k: f(*a, *b, **k)


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return lru_cached(maxsize)
    return lru_cached


def cache(f):
    return lru_cached(f)


class singledispatcher:
    def __init__(self, f):
        self.f, self.reg = f, []

    def register(self, cls, func=None):
        if func is not None:
            self.reg.append((cls, func))
            return func

        def deco(g):
            self.reg.append((cls, g))
            return g
        return deco

    def __call__(self, x, *a, **k):
        for c, g in self.reg:
            if type(x) is c:
                return g(x, *a, **k)
        for c, g in self.reg:
            if isinstance(x, c):
                return g(x, *a, **k)
        return self.f(x, *a, **k)


def singledispatch(f):
    return singledispatcher(f)


def cmp_to_key(f):
    raise NotImplementedError


def total_ordering(c):
    return c
