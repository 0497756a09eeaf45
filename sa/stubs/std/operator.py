def itemgetter(*ks):
    if len(ks) == 1:
        return lambda x: x[ks[0]]
    return lambda x: tuple([x[k] for k in ks])


def methodcaller(name, *a, **k):
    return lambda x: getattr(x, name)(*a, **k)


def sub(a, b):
    return a - b


def truediv(a, b):
    return a / b


def floordiv(a, b):
    return a // b


def mod(a, b):
    return a % b


def eq(a, b):
    return a == b


def ne(a, b):
    return a != b


def lt(a, b):
    return a < b


def le(a, b):
    return a <= b


def gt(a, b):
    return a > b


def ge(a, b):
    return a >= b


def and_(a, b):
    return a & b


def or_(a, b):
    return a | b


def not_(a):
    return not a


def neg(a):
    return -a


def is_(a, b):
    return a is b


def is_not(a, b):
    return a is not b


def contains(a, b):
    return b in a


def getitem(a, b):
    return a[b]


def setitem(a, b, c):
    a[b] = c


def concat(a, b):
    return a + b
