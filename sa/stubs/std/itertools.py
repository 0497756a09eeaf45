def islice(it, *a):
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 and a[2] is not None else 1)
    xs = list(it)
    return iter(xs[start or 0:stop:step])


def repeat(x, times):
    return iter([x for _ in range(times)])


def accumulate(it, func=None, initial=None):
    out = []
    acc = initial
    first = initial is None
    if not first:
        out.append(acc)
    for x in it:
        if first:
            acc, first = x, False
        elif func is None:
            acc = acc + x
        else:
            acc = func(acc, x)
        out.append(acc)
    return iter(out)


def starmap(f, it):
    return iter([f(*a) for a in it])


def takewhile(p, it):
    out = []
    for x in it:
        if not p(x):
            break
        out.append(x)
    return iter(out)


def dropwhile(p, it):
    out = []
    dropping = True
    for x in it:
        if dropping and p(x):
            continue
        dropping = False
        out.append(x)
    return iter(out)


def filterfalse(p, it):
    return iter([x for x in it if not (x if p is None else p(x))])


def compress(it, sel):
    return iter([x for x, s in zip(it, sel) if s])


def pairwise(it):
    xs = list(it)
    return iter(list(zip(xs, xs[1:])))


def combinations(it, r):
    xs = list(it)
    if r == 0:
        return [()]
    out = []
    for i, x in enumerate(xs):
        for rest in combinations(xs[i + 1:], r - 1):
            out.append((x,) + tuple(rest))
    return out


def permutations(it, r=None):
    xs = list(it)
    n = len(xs) if r is None else r
    if n == 0:
        return [()]
    out = []
    for i, x in enumerate(xs):
        for rest in permutations(xs[:i] + xs[i + 1:], n - 1):
            out.append((x,) + tuple(rest))
    return out


def groupby(it, key=None):
    out = []
    for x in it:
        k = x if key is None else key(x)
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter(out)


def tee(it, n=2):
    xs = list(it)
    return tuple([iter(list(xs)) for _ in range(n)])


class count:
    def __init__(self, start=0, step=1):
        self.n, self.step = start, step

    def __iter__(self):
        return self

    def __next__(self):
        self.n += self.step
        return self.n - self.step
