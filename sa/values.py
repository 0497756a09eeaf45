"""Abstract values and heap objects of the dataflow engine."""


class V:
    __slots__ = ()
    _f = ()

    def _key(self):
        return tuple(getattr(self, f) for f in self._f)

    def __eq__(self, o):
        return self is o or (o.__class__ is self.__class__ and self._key() == o._key())

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.__class__.__name__,) + self._key())


class K(V):
    """A known Python constant."""
    __slots__ = ('v',)
    _f = ('v',)

    def __init__(self, v):
        self.v = v

    def _key(self):
        return (self.v.__class__, self.v)

    def __repr__(self):
        return repr(self.v)


class Sym(V):
    """An unknown input, identified by name; `kind` is its Python type name when known."""
    __slots__ = ('name', 'kind')
    _f = ('name', 'kind')

    def __init__(self, name, kind=None):
        self.name, self.kind = name, kind

    def __repr__(self):
        return '<%s>' % self.name


class T(V):
    """Result of an operation the engine does not evaluate: keeps operator and operands (provenance)."""
    __slots__ = ('op', 'args', 'kind', '_h')
    _f = ('op', 'args')

    def __init__(self, op, args=(), kind=None):
        self.op, self.args, self.kind = op, tuple(args), kind
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.args))
        return self._h

    def __eq__(self, o):
        return self is o or (o.__class__ is T and hash(self) == hash(o) and self.op == o.op and self.args == o.args)

    def __repr__(self):
        if self.op == 'cat':
            return '+'.join(map(repr, self.args))
        if self.op == 'attr':
            return '%r.%s' % (self.args[0], self.args[1].v)
        if self.op == 'call':
            n, recv, a, kw, fr = self.args
            r = '' if recv == NONE else '%r.' % (recv,)
            s = ','.join([repr(x) for x in a.items] + ['%s=%r' % (p.items[0].v, p.items[1]) for p in kw.items])
            return '%s%s(%s)%s' % (r, n.v, s, '' if fr == NONE else '#%s' % (fr.v,))
        return '%s(%s)' % (self.op, ','.join(map(repr, self.args)))


class Tup(V):
    __slots__ = ('items',)
    _f = ('items',)

    def __init__(self, items=()):
        self.items = tuple(items)

    def __repr__(self):
        return '(%s)' % ','.join(map(repr, self.items))


class Ref(V):
    __slots__ = ('oid',)
    _f = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return '@%d' % self.oid


class Fn(V):
    __slots__ = ('node', 'mod', 'env', 'cls', 'defaults', 'kwdefaults')
    _f = ('node', 'env', 'cls')

    def __init__(self, node, mod, env, cls, defaults, kwdefaults):
        self.node, self.mod, self.env, self.cls = node, mod, env, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def __repr__(self):
        return 'fn:%s' % self.name


class BM(V):
    __slots__ = ('fn', 'self')
    _f = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __repr__(self):
        return 'bm:%r' % (self.fn,)


class Meth(V):
    """Method of a value whose class is not repository code."""
    __slots__ = ('recv', 'name')
    _f = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return '%r.%s' % (self.recv, self.name)


class Ext(V):
    """Something outside the repository (or opaque by configuration), known by dotted name."""
    __slots__ = ('name',)
    _f = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ext:' + self.name


class Partial(V):
    __slots__ = ('fn', 'args', 'kw')
    _f = ('fn', 'args', 'kw')

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, tuple(args), tuple(kw)


class Prop(V):
    __slots__ = ('fget', 'fset')
    _f = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class SM(V):
    __slots__ = ('fn',)
    _f = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class CM(V):
    __slots__ = ('fn',)
    _f = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Super(V):
    __slots__ = ('cls', 'self')
    _f = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class Star(V):
    """*unknown inside an argument list."""
    __slots__ = ('v',)
    _f = ('v',)

    def __init__(self, v):
        self.v = v


class DStar(Star):
    __slots__ = ()


class Exc(V):
    """An exception in flight."""
    __slots__ = ('val', 'node')
    _f = ('val',)

    def __init__(self, val, node=None):
        self.val, self.node = val, node

    def __repr__(self):
        return 'EXC(%r)' % (self.val,)


NONE, TRUE, FALSE = K(None), K(True), K(False)


# ---- heap objects: immutable, replaced on write -------------------------------------------------

class HList:
    __slots__ = ('kind', 'items', 'tail')

    def __init__(self, kind, items=(), tail=frozenset()):
        self.kind, self.items, self.tail = kind, tuple(items), frozenset(tail)


class HDict:
    """items: exact keys (ordered); rest: possible further (key, value) pairs with keys unknown."""
    __slots__ = ('items', 'rest', 'factory', 'owner')

    def __init__(self, items=None, rest=frozenset(), factory=None, owner=None):
        self.items, self.rest, self.factory = items if items is not None else {}, frozenset(rest), factory
        self.owner = owner      # the instance whose __dict__ this is


class HInst:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, attrs if attrs is not None else {}


class HCls:
    __slots__ = ('name', 'mod', 'bases', 'ns', 'node')

    def __init__(self, name, mod, bases, ns, node):
        self.name, self.mod, self.bases, self.ns, self.node = name, mod, bases, ns, node


class HMod:
    __slots__ = ('name', 'ns')

    def __init__(self, name, ns):
        self.name, self.ns = name, ns


class HEnv:
    __slots__ = ('vars', 'parent', 'mod')

    def __init__(self, vars, parent, mod):
        self.vars, self.parent, self.mod = vars, parent, mod


class Event:
    __slots__ = ('kind', 'name', 'recv', 'args', 'kw', 'node', 'locks', 'res', 'fn')

    def __init__(self, kind, name, recv, args, kw, node, locks, res, fn=None):
        self.kind, self.name, self.recv, self.args, self.kw = kind, name, recv, tuple(args), kw
        self.node, self.locks, self.res, self.fn = node, locks, res, fn

    def key(self):
        return (self.kind, self.name, self.recv, self.args, tuple(sorted(self.kw.items())) if self.kw else (),
                id(self.node), self.locks)

    def __repr__(self):
        kw = ','.join('%s=%r' % p for p in self.kw.items()) if self.kw else ''
        return '%s:%s[%r](%s%s)' % (self.kind, self.name, self.recv, ','.join(map(repr, self.args)),
                                    ',' + kw if kw else '')


class Heap(dict):
    """watch: objects whose changes are to be reported; log: the changes since the last statement ended"""
    __slots__ = ('watch', 'log')

    def __init__(self, old=()):
        dict.__init__(self, old)
        self.watch = getattr(old, 'watch', ())
        self.log = getattr(old, 'log', ())

    def __setitem__(self, oid, obj):
        if self.watch and oid in self.watch:
            self.log = self.log + ((oid, self.get(oid), obj),)
        if type(obj) is HDict and oid in self:
            old = self[oid]
            if type(old) is HDict and old.owner is not None:
                obj.owner = old.owner
                inst = self.get(old.owner)
                if type(inst) is HInst:
                    self[old.owner] = HInst(inst.cls, {k.v: x for k, x in obj.items.items()
                                                       if isinstance(k, K) and isinstance(k.v, str)})
        dict.__setitem__(self, oid, obj)


class State:
    __slots__ = ('heap', 'facts', 'trace', 'nid', 'nf', 'mods', 'loops', 'locks', 'frames', 'tags')

    def __init__(self):
        self.heap, self.facts, self.trace = Heap(), {}, ()
        self.nid, self.nf, self.mods, self.loops, self.locks, self.frames = 1, 0, {}, (), (), ()
        self.tags = {}

    def copy(self):
        s = State.__new__(State)
        s.heap, s.facts, s.trace = Heap(self.heap), dict(self.facts), self.trace
        s.nid, s.nf, s.mods, s.loops, s.locks = self.nid, self.nf, dict(self.mods), self.loops, self.locks
        s.frames = self.frames
        s.tags = dict(self.tags)
        return s

    def alloc(self, obj):
        o = self.nid
        self.nid += 1
        self.heap[o] = obj
        return Ref(o)

    def list(self, items=(), tail=(), kind='list'):
        return self.alloc(HList(kind, items, tail))

    def dict(self, items=None, rest=()):
        return self.alloc(HDict(dict(items or {}), rest))

    def obj(self, ref):
        return self.heap[ref.oid]


def lift(x, st):
    """Python structure -> abstract value (abstract values inside are kept)."""
    if isinstance(x, V):
        return x
    if isinstance(x, dict):
        return st.dict({lift(k, st): lift(v, st) for k, v in x.items()})
    if isinstance(x, list):
        return st.list([lift(v, st) for v in x])
    if isinstance(x, tuple):
        return Tup([lift(v, st) for v in x])
    return K(x)


class Opaque:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s


def lower(v, st, depth=0):
    """abstract value -> Python structure: K unwrapped, containers opened; other values kept."""
    if depth > 40:
        return Opaque('...')
    if isinstance(v, K):
        return v.v
    if isinstance(v, Tup):
        return tuple(lower(x, st, depth + 1) for x in v.items)
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, HList):
            r = [lower(x, st, depth + 1) for x in o.items]
            if o.tail:
                r.append(Opaque('*%r' % (sorted(map(repr, o.tail)),)))
            return r
        if isinstance(o, HDict):
            r = {}
            for k, x in o.items.items():
                k = lower(k, st, depth + 1)
                r[k if k.__hash__ else repr(k)] = lower(x, st, depth + 1)
            if o.rest:
                r[Opaque('**')] = Opaque(repr(o.rest))
            return r
        if isinstance(o, HInst):
            return v
    return v


def parts(v, st, _seen=None):
    """All sub-values of v (v included), following the heap."""
    seen = _seen if _seen is not None else set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Ref):
            if x.oid in seen:
                continue
            seen.add(x.oid)
            yield x
            o = st.heap.get(x.oid)
            if isinstance(o, HList):
                stack.extend(o.items)
                stack.extend(o.tail)
            elif isinstance(o, HDict):
                for k, y in o.items.items():
                    stack.append(k)
                    stack.append(y)
                for k, y in o.rest:
                    stack.append(k)
                    stack.append(y)
            elif isinstance(o, HInst):
                stack.extend(o.attrs.values())
            continue
        yield x
        if isinstance(x, T):
            for a in x.args:
                if isinstance(a, frozenset):
                    stack.extend(a)
                else:
                    stack.append(a)
        elif isinstance(x, Tup):
            stack.extend(x.items)
        elif isinstance(x, (Meth,)):
            stack.append(x.recv)
        elif isinstance(x, BM):
            stack.append(x.self)
        elif isinstance(x, Partial):
            stack.extend(x.args)
        elif isinstance(x, (Star, DStar)):
            stack.append(x.v)
        elif isinstance(x, Exc):
            stack.append(x.val)
