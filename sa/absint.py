"""Interprocedural, trace-partitioned dataflow engine over Python syntax trees.

Nothing of the repository is imported or executed: the engine propagates abstract values (constants, named unknown
inputs, provenance terms, and heap shapes) through the statements of the functions it is pointed at, following calls
into repository code and treating everything else as opaque.  A branch whose condition is not decided by known
constants goes both ways; loops over collections of unknown length run to a fixpoint with widening.
"""
import ast
import builtins as _b
import collections
import math
import operator as _op
import re

from .project import AnalysisError, loc
from .values import *

CONTAINER_ATTRS = (
    frozenset(n for t in (list, set, frozenset, tuple, bytearray, collections.deque) for n in dir(t)) | {'__next__', 'send', 'throw', 'close', 'maxlen', 'gi_frame'},
    frozenset(n for t in (dict, collections.OrderedDict, collections.Counter, collections.defaultdict)
              for n in dir(t)) | {'default_factory'})
MAXSTEPS = 60_000_000
TICK = None       # called now and then: the driver stops the analysis when its time is used up
STR_KIND = {'strip': 'str', 'lstrip': 'str', 'rstrip': 'str', 'lower': 'str', 'upper': 'str', 'replace': 'str',
            'format': 'str', 'join': 'str', 'title': 'str', 'capitalize': 'str', 'zfill': 'str', 'hexdigest': 'str',
            'split': 'list', 'rsplit': 'list', 'splitlines': 'list', 'partition': 'tuple', 'rpartition': 'tuple',
            'encode': 'bytes', 'decode': 'str', 'hex': 'str', 'startswith': 'bool', 'endswith': 'bool',
            'isalpha': 'bool', 'isalnum': 'bool', 'isdigit': 'bool', 'find': 'int', 'index': 'int', 'count': 'int',
            'isoformat': 'str', 'strftime': 'str', 'ljust': 'str', 'rjust': 'str', 'center': 'str',
            'swapcase': 'str', 'casefold': 'str', 'isspace': 'bool', 'isupper': 'bool', 'islower': 'bool',
            'digest': 'bytes', 'isnumeric': 'bool', 'removeprefix': 'str', 'removesuffix': 'str'}
RE_FN = ('match', 'fullmatch', 'search', 'sub', 'split', 'findall')
PURE = ('hashlib.', 'math.', 'json.', 'yaml.', 'base64.', 're.', 'string.', 'collections.', 'itertools.', 'operator.',
        'functools.', 'os.path.', 'decimal.', 'numpy.', 'builtins.', 'copy.', 'datetime.datetime.strptime',
        'cryptography.', 'six.', 'gmssl.', 'ast.')
IMPURE_METHODS = {'cursor', 'connection', 'connect', 'execute', 'fetchall', 'fetchone', 'commit', 'get', 'result'}
BINOPS = {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv,
          ast.Mod: _op.mod, ast.Pow: _op.pow, ast.BitAnd: _op.and_, ast.BitOr: _op.or_, ast.BitXor: _op.xor,
          ast.LShift: _op.lshift, ast.RShift: _op.rshift}
EXECUTOR = K('\0worker thread')     # in the lock set of what runs on a thread pool
STUB_DECORATORS = ('functools.lru_cache', 'functools.cache', 'functools.cached_property', 'functools.singledispatch')
OPN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
DIGIT_SAFE = ('split', 'rsplit', 'partition', 'rpartition', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith', 'endswith',
              'upper', 'lower', 'removesuffix', 'removeprefix')
CMP = {ast.Lt: _op.lt, ast.LtE: _op.le, ast.Gt: _op.gt, ast.GtE: _op.ge}
CMPN = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
CMPNEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>'}
CMPSWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}


class Frame:
    __slots__ = ('env', 'mod', 'fn', 'globals', 'yields', 'coroutine', 'hook', 'caller')

    def __init__(self, env, mod, fn=None):
        self.env, self.mod, self.fn = env, mod, fn
        self.globals, self.yields, self.coroutine, self.hook = None, None, False, None


def qual(node):
    q = getattr(node, '_qual', None)
    if q is None:
        names, n = [], node
        while n is not None:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.append(n.name)
            elif isinstance(n, ast.Lambda):
                names.append('<lambda>')
            n = getattr(n, '_parent', None)
        q = node._qual = '.'.join(reversed(names))
    return q


def bind(rs, f):
    out = []
    for v, st in rs:
        if v.__class__ is Exc:
            out.append((v, st))
        else:
            out.extend(f(v, st))
    return out


def has_yield(node):
    r = getattr(node, '_yields', None)
    if r is None:
        r = False
        stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        node._yields = r
    return r


class Interp:
    def __init__(self, project, opaque=(), intrinsics=None, class_intrinsic=None, may_raise=None, watch_attrs=(),
                 watch_globals=None, max_depth=90, watch_items=(), on_call=None):
        self.p = project
        self.opaque = tuple(opaque)
        self.intr = dict(intrinsics or {})
        self.growing = frozenset()      # shared containers of any size: len() of them is unknown
        self.class_intrinsic = class_intrinsic
        self.may_raise = may_raise
        self.watch_attrs = watch_attrs
        self.watch_globals = watch_globals or (lambda mod, name: False)
        self.watch_items = watch_items
        self.on_call = on_call
        self.max_depth = max_depth
        self.depth = 0
        self.steps = 0
        self.calls = {}          # qualified function name -> number of abstract calls
        self.imprecise = set()   # constructs approximated
        self.excepts = 0
        self.nonempty = False    # assume loops over unknown collections run at least once

    # ---------------------------------------------------------------- modules
    def is_opaque(self, name):
        return any(name == o or name.startswith(o + '.') for o in self.opaque)

    def import_module(self, name, st):
        """-> [(value, st)]"""
        if self.is_opaque(name) or not (self.p.has(name) or self.p.is_namespace(name)):
            return [(Ext(name), st)]
        if name in st.mods:
            return [(Ref(st.mods[name]), st)]
        par = name.rpartition('.')[0]
        out = []
        pre = self.import_module(par, st) if par else [(NONE, st)]
        for pv, s in pre:
            if isinstance(pv, Exc):
                out.append((pv, s))
                continue
            if name in s.mods:
                out.append((Ref(s.mods[name]), s))
                continue
            ref = s.alloc(HMod(name, {'__name__': K(name)}))
            s.mods[name] = ref.oid
            if not self.p.has(name):
                out.append((ref, s))
                continue
            m = self.p.mod(name)
            fr = Frame(None, ref.oid)
            for kind, v, s2 in self.block(m.tree.body, s, fr):
                if kind == 'exc':
                    out.append((v, s2))
                else:
                    if par and isinstance(pv, Ref):
                        o = s2.heap[pv.oid]
                        ns = dict(o.ns)
                        ns.setdefault(name.rpartition('.')[2], ref)
                        s2.heap[pv.oid] = HMod(o.name, ns)
                    out.append((ref, s2))
        return out

    def start(self, *modules):
        """fresh states with the given modules imported."""
        states = [State()]
        for m in modules:
            nxt = []
            for s in states:
                for v, s2 in self.import_module(m, s):
                    if isinstance(v, Exc):
                        raise AnalysisError('importing %s raises %r' % (m, v))
                    nxt.append(s2)
            states = nxt
        # drop facts/trace of module initialisation except configuration facts
        return states

    def mod_get(self, modname, name, st):
        if modname not in st.mods:
            raise AnalysisError('module %s is not loaded' % modname)
        v = st.heap[st.mods[modname]].ns.get(name)
        if v is None:
            raise AnalysisError('%s.%s not found' % (modname, name))
        return v

    # ---------------------------------------------------------------- names
    def lookup(self, name, st, fr, node=None):
        env = fr.env
        modoid = fr.mod
        if fr.globals and name in fr.globals:
            env = None
        while env is not None:
            e = st.heap[env]
            if name in e.vars:
                return [(e.vars[name], st)]
            env = e.parent
        ns = st.heap[modoid].ns
        if name in ns:
            if self.watch_globals(st.heap[modoid].name, name):
                self.event(st, Event('gread', name, Ref(modoid), (), {}, node, st.locks, None, fr.fn))
            return [(ns[name], st)]
        if hasattr(_b, name):
            return [(Ext('builtins.' + name), st)]
        stars = ns.get('\0star')
        if stars is not None:
            # imported with * from modules outside the model: the one whose source mentions the name
            for i in stars.items:
                m = self.p.modules.get(i.v)
                if m is None or re.search(r'\b%s\b' % re.escape(name), m.src):
                    return [(Ext(i.v + '.' + name), st)]
        return [(self.exc('NameError', name, node), st)]

    def assign_name(self, name, v, st, fr, node=None):
        if fr.globals and name in fr.globals or fr.env is None:
            o = st.heap[fr.mod]
            ns = dict(o.ns)
            if self.watch_globals(o.name, name) and fr.fn is not None:
                self.event(st, Event('gwrite', name, Ref(fr.mod), (v,), {}, node, st.locks, None, fr.fn))
            ns[name] = v
            st.heap[fr.mod] = HMod(o.name, ns)
            return
        env = fr.env
        e = st.heap[env]
        nl = getattr(fr, 'globals', None)
        if e.vars.get('\0nonlocal') and name in e.vars['\0nonlocal'].v:
            p = e.parent
            while p is not None:
                pe = st.heap[p]
                if name in pe.vars:
                    d = dict(pe.vars)
                    d[name] = v
                    st.heap[p] = HEnv(d, pe.parent, pe.mod)
                    return
                p = pe.parent
        d = dict(e.vars)
        d[name] = v
        st.heap[env] = HEnv(d, e.parent, e.mod)

    def event(self, st, ev):
        st.trace += (ev,)

    def exc(self, cls, msg='', node=None):
        return Exc(T('exc', (K(cls), msg if isinstance(msg, V) else K(str(msg)))), node)

    # ---------------------------------------------------------------- expressions
    def ev(self, node, st, fr):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise AnalysisError('analysis budget exceeded')
        if TICK is not None and not self.steps & 2047:
            TICK()
        m = getattr(self, 'e_' + node.__class__.__name__, None)
        if m is None:
            self.imprecise.add(node.__class__.__name__)
            return [(T('expr', (K(ast.dump(node)[:80]),)), st)]
        return m(node, st, fr)

    def evs(self, nodes, st, fr):
        acc = [((), st)]
        for n in nodes:
            nxt = []
            for vs, s in acc:
                if vs.__class__ is Exc:
                    nxt.append((vs, s))
                    continue
                if isinstance(n, ast.Starred):
                    for v, s2 in self.ev(n.value, s, fr):
                        if v.__class__ is Exc:
                            nxt.append((v, s2))
                            continue
                        items, tail = self.iter_of(v, s2)
                        nxt.append((vs + tuple(items) + ((Star(v),) if tail else ()), s2))
                else:
                    for v, s2 in self.ev(n, s, fr):
                        nxt.append((v, s2) if v.__class__ is Exc else (vs + (v,), s2))
            acc = nxt
        return acc

    def e_Constant(self, n, st, fr):
        return [(K(n.value), st)]

    def e_Name(self, n, st, fr):
        return self.lookup(n.id, st, fr, n)

    def e_Tuple(self, n, st, fr):
        return [(v if v.__class__ is Exc else Tup(v), s) for v, s in self.evs(n.elts, st, fr)]

    def e_List(self, n, st, fr):
        return [(v if v.__class__ is Exc else self.mklist(v, s), s) for v, s in self.evs(n.elts, st, fr)]

    def mklist(self, vs, st, kind='list'):
        items, tail = [], set()
        for v in vs:
            if isinstance(v, Star):
                i, t = self.iter_of(v.v, st)
                tail |= set(t) | set(i)
            elif tail:
                tail.add(v)
            else:
                items.append(v)
        return st.list(items, tail, kind)

    def e_Set(self, n, st, fr):
        return [(v if v.__class__ is Exc else self.mklist(list(dict.fromkeys(v)), s, 'set'), s)
                for v, s in self.evs(n.elts, st, fr)]

    def e_Dict(self, n, st, fr):
        acc = [(({}, frozenset()), st)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for d, s in acc:
                if d.__class__ is Exc:
                    nxt.append((d, s))
                    continue
                if k is None:
                    for x, s2 in self.ev(v, s, fr):
                        if x.__class__ is Exc:
                            nxt.append((x, s2))
                            continue
                        o = s2.heap[x.oid] if isinstance(x, Ref) else None
                        if isinstance(o, HDict):
                            dd = dict(d[0])
                            dd.update(o.items)
                            nxt.append(((dd, d[1] | o.rest), s2))
                        else:
                            nxt.append(((d[0], d[1] | {(T('elem', (x,)), T('item', (x, T('elem', (x,)))))}), s2))
                    continue
                for kv, s2 in self.evs([k, v], s, fr):
                    if kv.__class__ is Exc:
                        nxt.append((kv, s2))
                        continue
                    dd = dict(d[0])
                    dd[kv[0]] = kv[1]
                    nxt.append(((dd, d[1]), s2))
            acc = nxt
        return [(d if d.__class__ is Exc else s.alloc(HDict(d[0], d[1])), s) for d, s in acc]

    def e_JoinedStr(self, n, st, fr):
        acc = [((), st)]
        for p in n.values:
            nxt = []
            for vs, s in acc:
                if vs.__class__ is Exc:
                    nxt.append((vs, s))
                    continue
                if isinstance(p, ast.Constant):
                    nxt.append((vs + (K(p.value),), s))
                else:
                    for v, s2 in self.ev(p.value, s, fr):
                        if v.__class__ is Exc:
                            nxt.append((v, s2))
                        else:
                            if p.format_spec is None:
                                nxt.append((vs + (self.tostr(v, s2, 'repr' if p.conversion == 114 else 'str'),), s2))
                                continue
                            if p.conversion != -1:
                                v = self.tostr(v, s2, 'repr' if p.conversion == 114 else 'str')
                            for sp, s3 in self.ev(p.format_spec, s2, fr):
                                nxt.append((sp if sp.__class__ is Exc else vs + (self.fmtspec(v, sp, s3),), s3))
            acc = nxt
        return [(v if v.__class__ is Exc else self.cat(v), s) for v, s in acc]

    def fmtspec(self, v, spec, st, percent=False):
        """format(v, spec), or '%<spec>' % v"""
        if isinstance(v, K) and isinstance(spec, K):
            try:
                return K(('%' + spec.v) % (v.v,) if percent else format(v.v, spec.v))
            except Exception:
                return T('fmt', (v, spec), 'str')
        if spec in (K(''), K('s')) or spec == K('d') and self.kind(v, st) in ('int', None):
            return self.tostr(v, st)
        if percent and spec == K('r'):
            return self.tostr(v, st, 'repr')
        if percent and spec in (K('i'), K('u')) and self.kind(v, st) in ('int', None):
            return self.tostr(v, st)
        return T('fmt', (self.freeze(v, st), spec), 'str')

    def cat(self, vs):
        flat = []
        for v in vs:
            if isinstance(v, T) and v.op == 'cat':
                flat.extend(v.args)
            else:
                flat.append(v)
        out = []
        for v in flat:
            if isinstance(v, K) and out and isinstance(out[-1], K):
                out[-1] = K(out[-1].v + v.v)
            elif isinstance(v, K) and v.v in ('', b''):
                continue
            else:
                out.append(v)
        if not out:
            return K('')
        if len(out) == 1:
            return out[0]
        return T('cat', out, 'str')

    def tostr(self, v, st, how='str'):
        if isinstance(v, K):
            return K(str(v.v) if how == 'str' else repr(v.v))
        if self.kind(v, st) == 'str' and how == 'str':
            return v
        v = self.freeze(v, st)
        if isinstance(v, T) and v.op in ('list', 'dict') or isinstance(v, Tup):
            py = self.constpy(v)
            if py is not None:
                return K(str(py[0]))
        return T(how, (v,), 'str')

    def constpy(self, v):
        """(python value,) if v is fully known."""
        if isinstance(v, K):
            return (v.v,)
        if isinstance(v, Tup):
            xs = [self.constpy(x) for x in v.items]
            return None if None in xs else (tuple(x[0] for x in xs),)
        if isinstance(v, T) and v.op == 'list':
            xs = [self.constpy(x) for x in v.args]
            return None if None in xs else ([x[0] for x in xs],)
        if isinstance(v, T) and v.op == 'dict':
            d = {}
            for p in v.args:
                x = self.constpy(p)
                if x is None or not x[0][0].__hash__:
                    return None
                d[x[0][0]] = x[0][1]
            return (d,)
        return None

    def freeze(self, v, st, depth=0):
        if depth > 30:
            return T('deep')
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if isinstance(o, HList):
                a = [self.freeze(x, st, depth + 1) for x in o.items]
                if o.tail:
                    a.append(T('many', tuple(sorted((self.freeze(x, st, depth + 1) for x in o.tail), key=repr))))
                return T('list' if o.kind != 'set' else 'set', a, o.kind)
            if isinstance(o, HDict):
                a = [Tup((k, self.freeze(x, st, depth + 1))) for k, x in o.items.items()]
                if o.rest:
                    a.append(T('many', tuple(sorted((Tup((k, self.freeze(x, st, depth + 1))) for k, x in o.rest),
                                                    key=repr))))
                return T('dict', a, 'dict')
            return v
        if isinstance(v, Tup):
            return Tup([self.freeze(x, st, depth + 1) for x in v.items])
        if isinstance(v, Star):
            return T('star', (self.freeze(v.v, st, depth + 1),))
        return v

    def thaw(self, v, st):
        if isinstance(v, T) and v.op in ('list', 'set') and not any(isinstance(a, T) and a.op == 'many' for a in v.args):
            return st.list([self.thaw(a, st) for a in v.args], (), v.op)
        if isinstance(v, T) and v.op == 'dict' and all(isinstance(a, Tup) for a in v.args):
            return st.dict({a.items[0]: self.thaw(a.items[1], st) for a in v.args})
        if isinstance(v, Tup):
            return Tup([self.thaw(a, st) for a in v.items])
        return v

    def e_FormattedValue(self, n, st, fr):
        return bind(self.ev(n.value, st, fr), lambda v, s: [(self.tostr(v, s), s)])

    def e_BinOp(self, n, st, fr):
        def f(vs, s):
            return self.binop(n.op, vs[0], vs[1], s, n, fr)
        out = []
        for vs, s in self.evs([n.left, n.right], st, fr):
            out.extend([(vs, s)] if vs.__class__ is Exc else f(vs, s))
        return out

    def binop(self, op, a, b, st, node, fr=None):
        if isinstance(a, K) and isinstance(b, K) and op.__class__ in BINOPS:
            try:
                if op.__class__ is ast.Pow and isinstance(b.v, int) and abs(b.v) > 4096:
                    raise AnalysisError('huge power')
                return [(K(BINOPS[op.__class__](a.v, b.v)), st)]
            except AnalysisError:
                raise
            except Exception as e:
                return [(self.exc(type(e).__name__, e, node), st)]
        ka, kb = self.kind(a, st), self.kind(b, st)
        dunder = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Mod: '__mod__',
                  ast.Div: '__truediv__', ast.BitOr: '__or__', ast.BitAnd: '__and__', ast.BitXor: '__xor__',
                  ast.LShift: '__lshift__', ast.RShift: '__rshift__', ast.FloorDiv: '__floordiv__'}.get(op.__class__)
        if dunder and isinstance(a, Ref) and isinstance(st.heap[a.oid], HInst):
            r = self.cls_lookup(st.heap[a.oid].cls, dunder, st)
            if r is not None:
                return self.call(BM(r, a) if isinstance(r, Fn) else r, [b], {}, st, node, fr)
        if dunder and isinstance(b, Ref) and isinstance(st.heap[b.oid], HInst) and not (
                isinstance(op, ast.Mod) and ka == 'str'):
            r = self.cls_lookup(st.heap[b.oid].cls, '__r' + dunder[2:], st)
            if r is not None:
                return self.call(BM(r, b) if isinstance(r, Fn) else r, [a], {}, st, node, fr)
        if isinstance(op, ast.Add):
            oa = st.heap[a.oid] if isinstance(a, Ref) else None
            ob = st.heap[b.oid] if isinstance(b, Ref) else None
            if isinstance(oa, HList) and isinstance(ob, HList):
                if oa.tail:
                    return [(st.list(oa.items, oa.tail | set(ob.items) | ob.tail), st)]
                return [(st.list(oa.items + ob.items, ob.tail), st)]
            if isinstance(oa, HList) or isinstance(ob, HList):
                if ka is not None and kb is not None and ka != kb:
                    return [(self.exc('TypeError', 'list +', node), st)]
                x, y = (oa, b) if oa is not None else (ob, a)
                return [(st.list(x.items if oa is not None else (), x.tail | set(() if oa is not None else x.items) |
                                 {T('elem', (y,))}), st)]
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(Tup(a.items + b.items), st)]
            if ka == 'str' or kb == 'str':
                other = kb if ka == 'str' else ka
                if other is not None and other != 'str':
                    return [(self.exc('TypeError', 'str + %s' % other, node), st)]
                return [(self.cat([a, b]), st)]
        if isinstance(op, ast.Mult):
            x, y = (a, b) if isinstance(a, Ref) else (b, a)
            if isinstance(x, Ref) and isinstance(st.heap[x.oid], HList):
                o = st.heap[x.oid]
                if isinstance(y, K) and isinstance(y.v, int):
                    if len(o.items) * y.v > 10 ** 6:
                        return [(self.exc('MemoryError', '', node), st)]
                    return [(st.list(o.items * y.v, o.tail), st)]
                return [(st.list((), set(o.items) | o.tail), st)]
        if isinstance(op, ast.Mod) and ka == 'str':
            return [(self.percent(a, b, st), st)]
        if isinstance(op, ast.BitOr):
            oa = st.heap[a.oid] if isinstance(a, Ref) else None
            ob = st.heap[b.oid] if isinstance(b, Ref) else None
            if isinstance(oa, HDict) and isinstance(ob, HDict):
                d = dict(oa.items)
                d.update(ob.items)
                return [(st.alloc(HDict(d, oa.rest | ob.rest)), st)]
        if isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)):
            oa = st.heap[a.oid] if isinstance(a, Ref) else None
            ob = st.heap[b.oid] if isinstance(b, Ref) else None
            if isinstance(oa, HList) != isinstance(ob, HList):
                # a view of keys with a tuple
                if isinstance(a, Tup) or isinstance(a, K) and isinstance(a.v, tuple):
                    oa = HList(a.items if isinstance(a, Tup) else [K(x) for x in a.v])
                if isinstance(b, Tup) or isinstance(b, K) and isinstance(b.v, tuple):
                    ob = HList(b.items if isinstance(b, Tup) else [K(x) for x in b.v])
            if isinstance(oa, HList) and isinstance(ob, HList) and not oa.tail and not ob.tail:
                if isinstance(op, ast.BitOr):
                    its = list(dict.fromkeys(oa.items + ob.items))
                elif isinstance(op, ast.Sub):
                    its = [x for x in oa.items if x not in ob.items]
                else:
                    its = [x for x in oa.items if x in ob.items]
                return [(st.list(its, (), 'set'), st)]
        if 'NoneType' in (ka, kb):
            return [(self.exc('TypeError', 'None operand', node), st)]
        kind = None
        if ka in ('int', 'float') and kb in ('int', 'float'):
            kind = 'float' if isinstance(op, ast.Div) or 'float' in (ka, kb) else 'int'
        return [(T(OPN[op.__class__], (self.freeze(a, st), self.freeze(b, st)), kind), st)]

    def percent(self, a, b, st):
        if not isinstance(a, K):
            return T('%', (a, self.freeze(b, st)), 'str')
        args = list(b.items) if isinstance(b, Tup) else [b]
        import re
        out, i, pos = [], 0, 0
        for m in re.finditer(r'%(\((\w+)\))?([#0\- +]*\d*(?:\.\d+)?)([sdrfxgiXeEoucFG%])', a.v):
            spec = K(m.group(3) + m.group(4))
            out.append(K(a.v[pos:m.start()]))
            pos = m.end()
            if m.group(4) == '%':
                out.append(K('%'))
            elif m.group(2):
                x = None
                if isinstance(b, Ref) and isinstance(st.heap[b.oid], HDict):
                    x = st.heap[b.oid].items.get(K(m.group(2)))
                out.append(self.fmtspec(x, spec, st, True) if x is not None else T('item', (self.freeze(b, st), K(m.group(2))), 'str'))
            else:
                out.append(self.fmtspec(args[i], spec, st, True) if i < len(args) else T('missing', (), 'str'))
                i += 1
        out.append(K(a.v[pos:]))
        return self.cat(out)

    def e_UnaryOp(self, n, st, fr):
        def f(v, s):
            if isinstance(n.op, ast.Not):
                return [(K(not t), s2) for t, s2 in self.truth(v, s, fr)]
            if isinstance(v, K):
                try:
                    return [(K({ast.USub: _op.neg, ast.UAdd: _op.pos, ast.Invert: _op.invert}[n.op.__class__](v.v)), s)]
                except Exception as e:
                    return [(self.exc(type(e).__name__, e, n), s)]
            if isinstance(v, Ref) and isinstance(s.heap[v.oid], HInst):
                r = self.cls_lookup(s.heap[v.oid].cls, {ast.USub: '__neg__', ast.UAdd: '__pos__'}.get(
                    n.op.__class__, '__invert__'), s)
                if r is not None:
                    return self.call(BM(r, v) if isinstance(r, Fn) else r, [], {}, s, n, fr)
            if isinstance(n.op, ast.UAdd):
                return [(v, s)]
            if isinstance(n.op, ast.USub) and isinstance(v, T) and v.op == 'neg':
                return [(v.args[0], s)]
            return [(T('neg' if isinstance(n.op, ast.USub) else 'inv', (v,), self.kind(v, s)), s)]
        return bind(self.ev(n.operand, st, fr), f)

    def e_BoolOp(self, n, st, fr):
        is_and = isinstance(n.op, ast.And)

        def go(i, s):
            if i == len(n.values) - 1:
                return self.ev(n.values[i], s, fr)
            out = []
            for v, s2 in self.ev(n.values[i], s, fr):
                if v.__class__ is Exc:
                    out.append((v, s2))
                    continue
                for t, s3 in self.truth(v, s2, fr):
                    if t == is_and:
                        out.extend(go(i + 1, s3))
                    else:
                        out.append((v if not (isinstance(v, (T, Sym)) and not t and self.kind(v, s3) == 'bool')
                                    else FALSE, s3))
            return out
        return go(0, st)

    def e_IfExp(self, n, st, fr):
        out = []
        for v, s in self.ev(n.test, st, fr):
            if v.__class__ is Exc:
                out.append((v, s))
                continue
            for t, s2 in self.truth(v, s, fr):
                out.extend(self.ev(n.body if t else n.orelse, s2, fr))
        return out

    def e_NamedExpr(self, n, st, fr):
        def f(v, s):
            self.assign_name(n.target.id, v, s, fr)
            return [(v, s)]
        return bind(self.ev(n.value, st, fr), f)

    def e_Compare(self, n, st, fr):
        def go(left, i, s):
            out = []
            for r, s2 in self.ev(n.comparators[i], s, fr):
                if r.__class__ is Exc:
                    out.append((r, s2))
                    continue
                for v, s3 in self.compare(n.ops[i], left, r, s2, n, fr):
                    if v.__class__ is Exc or i == len(n.ops) - 1:
                        out.append((v, s3))
                        continue
                    for t, s4 in self.truth(v, s3, fr):
                        out.extend(go(r, i + 1, s4) if t else [(FALSE, s4)])
            return out
        return bind(self.ev(n.left, st, fr), lambda v, s: go(v, 0, s))

    def fact(self, key, st):
        """partition on an undecided atom -> [(bool, st)]"""
        if key in st.facts:
            return [(st.facts[key], st)]
        s2 = st.copy()
        st.facts[key] = True
        s2.facts[key] = False
        return [(True, st), (False, s2)]

    def eqv(self, a, b, st, depth=0):
        """True / False / None"""
        if a == b and not (isinstance(a, K) and a.v != a.v):
            return True
        if isinstance(a, K) and isinstance(b, K):
            try:
                return bool(a.v == b.v)
            except Exception:
                return False
        oa = st.heap.get(a.oid) if isinstance(a, Ref) else None
        ob = st.heap.get(b.oid) if isinstance(b, Ref) else None
        if oa is not None and ob is not None and depth < 8:
            if type(oa) is not type(ob):
                return False
            if isinstance(oa, HList):
                if oa.tail or ob.tail:
                    return None
                if 'set' in (oa.kind, ob.kind):
                    if oa.kind != ob.kind:
                        return False
                    if all(isinstance(x, K) for x in oa.items + ob.items):
                        return set(oa.items) == set(ob.items)
                    if set(oa.items) == set(ob.items):
                        return True
                    return None
                if len(oa.items) != len(ob.items):
                    return False
                rs = [self.eqv(x, y, st, depth + 1) for x, y in zip(oa.items, ob.items)]
                return False if False in rs else (None if None in rs else True)
            if isinstance(oa, HDict):
                if oa.rest or ob.rest:
                    return None
                if set(oa.items) != set(ob.items):
                    if all(isinstance(k, K) for k in list(oa.items) + list(ob.items)):
                        return False
                    return None
                rs = [self.eqv(oa.items[k], ob.items[k], st, depth + 1) for k in oa.items]
                return False if False in rs else (None if None in rs else True)
            return False
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            rs = [self.eqv(x, y, st, depth + 1) for x, y in zip(a.items, b.items)]
            return False if False in rs else (None if None in rs else True)
        for x, o in ((a, ob), (b, oa)):
            if isinstance(x, (Tup, K)) and o is not None and isinstance(o, (HList, HDict, HInst)) and not (
                    isinstance(o, HInst) and self.cls_lookup(o.cls, '__eq__', st) is not None):
                return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and isinstance(y, K) and isinstance(y.v, str):
                if x.op == 'digits' and not y.v.isdigit():
                    return False
                if x.op == 'chars' and len(y.v) != len(x.args):
                    return False
        ka, kb = self.kind(a, st), self.kind(b, st)
        num = ('int', 'float', 'bool')
        if ka is not None and kb is not None and ka != kb and not (ka in num and kb in num):
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Ref, Fn, BM, Ext, Tup)) and isinstance(y, K):
                return False
            # a value already known to equal one constant differs from every other
            if isinstance(y, K) and isinstance(x, (Sym, T)):
                for f, t in st.facts.items():
                    if t and f[0] == 'eq' and x in f[1]:
                        o = [z for z in f[1] if z != x]
                        if o and isinstance(o[0], K):
                            return o[0].v == y.v
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.op == 'type' and isinstance(y, Ext):
                k = self.kind(x.args[0], st)
                if k is not None:
                    return y.name == 'builtins.' + k
        if isinstance(a, (Ext, Fn, BM)) and isinstance(b, (Ext, Fn, BM)):
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Ext, Fn, BM)) and isinstance(y, Ref) and isinstance(st.heap[y.oid], HCls):
                return False
        return None

    def compare(self, op, a, b, st, node, fr):
        c = op.__class__
        if c in (ast.Is, ast.IsNot):
            neg = c is ast.IsNot
            if a == b:
                r = True
            else:
                r = self.eqv(a, b, st)
                if r is True and isinstance(a, Ref):
                    r = False
            if r is None:
                return [(K(t != neg), s) for t, s in self.fact(('eq', frozenset((a, b))), st)]
            return [(K(r != neg), st)]
        if c in (ast.Eq, ast.NotEq):
            neg = c is ast.NotEq
            if isinstance(a, Ref) and isinstance(st.heap[a.oid], HInst):
                m = self.cls_lookup(st.heap[a.oid].cls, '__eq__', st)
                if isinstance(m, Fn) and a != b:
                    rs = self.call(BM(m, a), [b], {}, st, node, fr)
                    if not neg:
                        return rs
                    return bind(rs, lambda v, s: [(K(not t), s2) for t, s2 in self.truth(v, s, fr)])
            r = self.eqv(a, b, st)
            if r is None:
                key = ('eq', frozenset((self.freeze(a, st), self.freeze(b, st))))
                return [(K(t != neg), s) for t, s in self.fact(key, st)]
            return [(K(r != neg), st)]
        if c in (ast.In, ast.NotIn):
            neg = c is ast.NotIn
            return bind(self.contains(b, a, st, node, fr), lambda v, s: [(K(v.v != neg), s)])
        if isinstance(a, K) and isinstance(b, K):
            try:
                return [(K(bool(CMP[c](a.v, b.v))), st)]
            except Exception as e:
                return [(self.exc(type(e).__name__, e, node), st)]
        sa, sb = [st.heap[x.oid] if isinstance(x, Ref) else None for x in (a, b)]
        if isinstance(sa, HInst):
            m = self.cls_lookup(sa.cls, {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[c], st)
            if isinstance(m, Fn):
                return self.call(BM(m, a), [b], {}, st, node, fr)
        if isinstance(sa, HList) and isinstance(sb, HList) and sa.kind == sb.kind == 'set' and not sa.tail and not sb.tail:
            xs, ys = set(sa.items), set(sb.items)
            r = CMP[c](xs, ys)
            if all(isinstance(x, K) for x in xs | ys) or r and c in (ast.LtE, ast.GtE):
                return [(K(r), st)]
        pa, pb = self.constpy(self.freeze(a, st)), self.constpy(self.freeze(b, st))
        if pa and pb and isinstance(pa[0], (tuple, list)) and type(pa[0]) is type(pb[0]):
            try:
                return [(K(bool(CMP[c](pa[0], pb[0]))), st)]
            except TypeError as e:
                return [(self.exc('TypeError', e, node), st)]
        name = CMPN[c]
        a, b = self.freeze(a, st), self.freeze(b, st)
        flip = False
        if isinstance(a, K) and isinstance(a.v, (int, float)):
            name, a, b = CMPSWAP[name], b, a
        if isinstance(b, K) and isinstance(b.v, (int, float)) and not isinstance(b.v, bool):
            # interval domain: atoms over one term and a numeric constant decide each other
            while isinstance(a, T) and a.op == 'neg':
                name, a, b = CMPSWAP[name], a.args[0], K(-b.v)
            if name in ('>', '>='):
                name, flip = CMPNEG[name], True
            lo, hi = None, None         # (bound, strict)
            for f, t in st.facts.items():
                if f[0] == 'num' and f[2] == a:
                    if t:
                        if hi is None or (f[3], f[1] != '<') < (hi[0], not hi[1]):
                            hi = (f[3], f[1] == '<')
                    else:
                        strict = f[1] == '<='
                        if lo is None or (f[3], strict) > lo:
                            lo = (f[3], strict)
            dec = None
            if hi is not None and (hi[0] < b.v or hi[0] == b.v and (hi[1] or name == '<=')):
                dec = True
            elif lo is not None and (lo[0] > b.v or lo[0] == b.v and (lo[1] or name == '<')):
                dec = False
            if dec is not None:
                return [(K(dec != flip), st)]
            return [(K(t != flip), s) for t, s in self.fact(('num', name, a, b.v), st)]
        # canonical atom: '<' or '<=' only, to share facts between mirrored spellings
        if name in ('>', '>='):
            name, a, b = CMPSWAP[name], b, a
        if ('<' if name == '<=' else '<=', b, a) in st.facts:
            return [(K(not st.facts[('<' if name == '<=' else '<=', b, a)]), st)]
        return [(K(t), s) for t, s in self.fact((name, a, b), st)]

    def contains(self, cont, x, st, node, fr):
        """-> [(K(bool), st)]"""
        if isinstance(cont, K) and isinstance(x, K):
            try:
                return [(K(x.v in cont.v), st)]
            except Exception as e:
                return [(self.exc(type(e).__name__, e, node), st)]
        if isinstance(cont, K) and cont.v is None:
            return [(self.exc('TypeError', 'in None', node), st)]
        if isinstance(cont, T) and cont.op in ('cat', 'digits') and isinstance(x, K) and isinstance(x.v, str) \
                and len(x.v) == 1 and not x.v.isdigit():
            ps = cont.args if cont.op == 'cat' else (cont,)
            if all(isinstance(q, K) or isinstance(q, T) and q.op == 'digits' for q in ps):
                return [(K(any(isinstance(q, K) and x.v in q.v for q in ps)), st)]
        items = None
        rest = False
        if isinstance(cont, K) and isinstance(cont.v, (tuple, frozenset)):
            items = [K(v) for v in cont.v]
        if isinstance(cont, Tup):
            items = cont.items
        elif isinstance(cont, Ref):
            o = st.heap[cont.oid]
            if isinstance(o, HDict):
                items, rest = list(o.items), [k for k, _ in o.rest]
            elif isinstance(o, HList):
                items, rest = o.items, list(o.tail)
            elif isinstance(o, HInst):
                m = self.cls_lookup(o.cls, '__contains__', st)
                if isinstance(m, Fn):
                    out = []
                    for v, s in self.call(BM(m, cont), [x], {}, st, node, fr):
                        out.extend([(v, s)] if v.__class__ is Exc else [(K(t), s2) for t, s2 in self.truth(v, s, fr)])
                    return out
        if items is not None:
            rs = [self.eqv(x, y, st) for y in items]
            if True in rs:
                return [(TRUE, st)]
            unk = [y for y, r in zip(items, rs) if r is None]
            if not unk and not rest:
                return [(FALSE, st)]
            if not rest and len(unk) <= 12:
                out, cur = [], st
                for y in unk:
                    br = self.fact(('eq', frozenset((self.freeze(x, cur), self.freeze(y, cur)))), cur)
                    nxt = None
                    for t, s in br:
                        if t:
                            out.append((TRUE, s))
                        else:
                            nxt = s
                    if nxt is None:
                        return out
                    cur = nxt
                out.append((FALSE, cur))
                return out
        return [(K(t), s) for t, s in self.fact(('in', self.freeze(x, st), self.freeze(cont, st)), st)]

    def truth(self, v, st, fr=None):
        if isinstance(v, K):
            return [(bool(v.v), st)]
        if isinstance(v, Tup):
            return [(bool(v.items), st)]
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, HList):
                if o.items:
                    return [(True, st)]
                if not o.tail:
                    return [(False, st)]
                return self.fact(('truth', v), st)
            if isinstance(o, HDict):
                if o.items:
                    return [(True, st)]
                if not o.rest:
                    return [(False, st)]
                return self.fact(('truth', v), st)
            if isinstance(o, HInst):
                for nm in ('__bool__', '__len__'):
                    m = self.cls_lookup(o.cls, nm, st)
                    if isinstance(m, Fn):
                        out = []
                        for r, s in self.call(BM(m, v), [], {}, st, None, fr):
                            if r.__class__ is Exc:
                                out.append((True, s))
                            else:
                                out.extend(self.truth(r, s, fr))
                        return out
            return [(True, st)]
        if isinstance(v, (Sym, T)):
            if isinstance(v, T):
                if v.op == 'cat' and any(isinstance(a, K) and a.v for a in v.args):
                    return [(True, st)]
                if v.op in ('enc', 'truthy', 'chars'):
                    return [(True, st)]
                if v.op in ('list', 'dict', 'set') and v.args and not any(
                        isinstance(a, T) and a.op == 'many' for a in v.args):
                    return [(True, st)]
                if v.op == 'len':
                    return self.truth(v.args[0], st, fr) if not isinstance(v.args[0], T) or v.args[0].op != 'len' \
                        else self.fact(('truth', v), st)
            key = ('eq', frozenset((v, NONE)))
            if st.facts.get(key) is True:
                return [(False, st)]
            for f, t in st.facts.items():
                if t and f[0] == 'eq' and v in f[1]:
                    o = [z for z in f[1] if z != v]
                    if o and isinstance(o[0], K):
                        return [(bool(o[0].v), st)]
            return self.fact(('truth', v), st)
        return [(True, st)]

    def kind(self, v, st):
        if isinstance(v, K):
            return type(v.v).__name__
        if isinstance(v, (Sym, T)):
            if v.kind:
                return v.kind
            return st.facts.get(('kind', v))
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if isinstance(o, HList):
                return o.kind
            if isinstance(o, HDict):
                return 'dict'
            if isinstance(o, HInst):
                return 'instance'
            if isinstance(o, HCls):
                return 'type'
            return 'module'
        if isinstance(v, (Fn, BM, Partial)):
            return 'function'
        return None

    # ---- attribute access
    def e_Attribute(self, n, st, fr):
        return bind(self.ev(n.value, st, fr), lambda v, s: self.getattr(v, n.attr, s, n, fr))

    def mro(self, cls, st):
        """linearised bases (depth first, duplicates removed keeping the last): enough for this code base."""
        out = []

        def go(c):
            out.append(c)
            if isinstance(c, Ref) and isinstance(st.heap.get(c.oid), HCls):
                for b in st.heap[c.oid].bases:
                    go(b)
        go(cls)
        res = []
        for i, c in enumerate(out):
            if c not in out[i + 1:]:
                res.append(c)
        return res

    def cls_lookup(self, cls, name, st):
        for c in self.mro(cls, st):
            if isinstance(c, Ref) and isinstance(st.heap.get(c.oid), HCls):
                if name in st.heap[c.oid].ns:
                    return st.heap[c.oid].ns[name]
        return None

    def has_ext_base(self, cls, st):
        return [c for c in self.mro(cls, st) if isinstance(c, (Ext, T)) and
                getattr(c, 'name', '') not in ('builtins.object', 'abc.ABC')]

    def getattr(self, v, name, st, node, fr, default=None):
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, HInst):
                if name in self.watch_attrs:
                    self.event(st, Event('getattr', name, v, (), {}, node, st.locks, None, fr and fr.fn))
                if name in o.attrs:
                    d = self.cls_lookup(o.cls, name, st) if not isinstance(o.cls, Ext) else None
                    if isinstance(d, Ref) and isinstance(st.heap[d.oid], HInst) and \
                            isinstance(self.cls_lookup(st.heap[d.oid].cls, '__set__', st), Fn):
                        return self.bind_attr(d, v, o.cls, st, node, fr)
                    return [(o.attrs[name], st)]
                if name == '__class__':
                    return [(o.cls, st)]
                if name == '__dict__':
                    d = st.dict({K(k): x for k, x in o.attrs.items()})
                    st.heap[d.oid].owner = v.oid
                    return [(d, st)]
                r = self.cls_lookup(o.cls, name, st)
                if r is not None:
                    return self.bind_attr(r, v, o.cls, st, node, fr)
                if name == '__getattribute__':
                    return [(Meth(v, name), st)]
                g = self.cls_lookup(o.cls, '__getattr__', st)
                if isinstance(g, Fn):
                    return self.call(BM(g, v), [K(name)], {}, st, node, fr)
                if self.has_ext_base(o.cls, st) or isinstance(o.cls, Ext):
                    return [(T('attr', (v, K(name))), st)]
                if default is not None:
                    return [(default, st)]
                if name in ('__init__', '__eq__', '__str__', '__repr__', '__hash__', '__ne__'):
                    return [(Meth(v, name), st)]
                return [(self.exc('AttributeError', name, node), st)]
            if isinstance(o, HCls):
                if name in self.watch_attrs:
                    self.event(st, Event('getattr', name, v, (), {}, node, st.locks, None, fr and fr.fn))
                r = self.cls_lookup(v, name, st)
                if r is not None:
                    if isinstance(r, CM):
                        return [(BM(r.fn, v) if isinstance(r.fn, Fn) else r.fn, st)]
                    if isinstance(r, SM):
                        return [(r.fn, st)]
                    if isinstance(r, Ref) and isinstance(st.heap[r.oid], HInst):
                        return self.bind_attr(r, v, v, st, node, fr)
                    return [(r, st)]
                if name == '__name__':
                    return [(K(o.name), st)]
                if name == '__dict__':
                    return [(st.dict({K(k): x for k, x in o.ns.items()}), st)]
                if self.has_ext_base(v, st):
                    return [(T('attr', (v, K(name))), st)]
                if default is not None:
                    return [(default, st)]
                return [(Meth(v, name), st) if name.startswith('__') else (self.exc('AttributeError', name, node), st)]
            if isinstance(o, HMod):
                if name in o.ns:
                    if self.watch_globals(o.name, name):
                        self.event(st, Event('gread', name, v, (), {}, node, st.locks, None, fr and fr.fn))
                    return [(o.ns[name], st)]
                if self.p.has(o.name + '.' + name):
                    return self.import_module(o.name + '.' + name, st)
                if default is not None:
                    return [(default, st)]
                return [(self.exc('AttributeError', o.name + '.' + name, node), st)]
            if name == '__class__':
                return [(Ext('builtins.' + self.kind(v, st)), st)]
            if name not in CONTAINER_ATTRS[isinstance(o, HDict)]:
                if '.' + name in self.intr:         # a method the modelled library gives its own containers
                    return [(T('attr', (v, K(name))), st)]
                if default is not None:
                    return [(default, st)]
                return [(self.exc('AttributeError', name, node), st)]
            return [(Meth(v, name), st)]
        if isinstance(v, Ext):
            six = {'integer_types': ('int',), 'string_types': ('str',), 'text_type': 'str', 'binary_type': 'bytes'}
            if v.name == 'six' and name in six:
                t = six[name]
                return [(Ext('builtins.' + t) if isinstance(t, str) else Tup([Ext('builtins.' + x) for x in t]), st)]
            if v.name == 'math' and name in ('pi', 'e', 'inf', 'tau', 'nan'):
                return [(K(getattr(math, name)), st)]
            if v.name == 'sys' and name == 'version_info':
                return [(Tup((K(3), K(8), K(0), K('final'), K(0))), st)]
            if v.name == 're' and isinstance(getattr(re, name, None), re.RegexFlag):
                return [(K(int(getattr(re, name))), st)]
            return [(Ext(v.name + '.' + name), st)]
        if isinstance(v, Super):
            out = self.mro(st.heap[v.self.oid].cls if isinstance(v.self, Ref) and
                           isinstance(st.heap[v.self.oid], HInst) else v.self, st)
            if v.cls in out:
                out = out[out.index(v.cls) + 1:]
            for c in out:
                if isinstance(c, Ref) and name in st.heap[c.oid].ns:
                    r = st.heap[c.oid].ns[name]
                    return self.bind_attr(r, v.self, c, st, node, fr)
            return [(Meth(v, name), st)]
        if isinstance(v, (Fn, BM)):
            if name == '__name__':
                return [(K((v if isinstance(v, Fn) else v.fn).name), st)]
            return [(T('attr', (v, K(name))), st)]
        if isinstance(v, (K, Tup)):
            if isinstance(v, K) and v.v is None:
                if default is not None:
                    return [(default, st)]
                if name == '__class__':
                    return [(Ext('builtins.NoneType'), st)]
                return [(self.exc('AttributeError', 'None.' + name, node), st)]
            if isinstance(v, K) and not hasattr(v.v, name):
                if default is not None:
                    return [(default, st)]
                return [(self.exc('AttributeError', name, node), st)]
            if isinstance(v, K) and name == '__class__':
                return [(Ext('builtins.' + type(v.v).__name__), st)]
            return [(Meth(v, name), st)]
        k = self.kind(v, st)
        if k in ('str', 'list', 'dict', 'int', 'float', 'bytes', 'set', 'tuple', 'bool'):
            if name == '__class__':
                return [(Ext('builtins.' + k), st)]
            if not hasattr(getattr(_b, k), name):
                if default is not None:
                    return [(default, st)]
                return [(self.exc('AttributeError', name, node), st)]
            return [(Meth(v, name), st)]
        ov = st.tags.get(('attr', v, name))
        if ov is not None:
            return [(ov, st)]
        return [(T('attr', (v, K(name))), st)]

    def bind_attr(self, r, self_, cls, st, node, fr):
        if isinstance(r, Fn):
            return [(BM(r, self_), st)]
        if isinstance(r, SM):
            return [(r.fn, st)]
        if isinstance(r, CM):
            c = cls
            return [(BM(r.fn, c) if isinstance(r.fn, Fn) else r.fn, st)]
        if isinstance(r, Prop):
            return self.call(BM(r.fget, self_) if isinstance(r.fget, Fn) else r.fget, [], {}, st, node, fr)
        if isinstance(r, Ref) and isinstance(st.heap[r.oid], HInst):
            g = self.cls_lookup(st.heap[r.oid].cls, '__get__', st)
            if isinstance(g, Fn):
                inst = isinstance(self_, Ref) and isinstance(st.heap[self_.oid], HInst)
                return self.call(BM(g, r), [self_ if inst else NONE, cls], {}, st, node, fr)
        if isinstance(r, Partial) and r.args and r.args[0] == K('\0self'):
            return [(Partial(r.fn, (self_,) + r.args[1:], r.kw), st)]
        return [(r, st)]

    def setattr(self, v, name, x, st, node, fr):
        """-> [(NONE|Exc, st)]"""
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if name in self.watch_attrs:
                self.event(st, Event('setattr', name, v, (x,), {}, node, st.locks, None, fr and fr.fn))
            if isinstance(o, HInst):
                r = self.cls_lookup(o.cls, name, st)
                if isinstance(r, Prop) and r.fset is not None:
                    return self.call(BM(r.fset, v), [x], {}, st, node, fr)
                if isinstance(r, Ref) and isinstance(st.heap[r.oid], HInst):
                    g = self.cls_lookup(st.heap[r.oid].cls, '__set__', st)
                    if isinstance(g, Fn):
                        return self.call(BM(g, r), [v, x], {}, st, node, fr)
                sa = self.cls_lookup(o.cls, '__setattr__', st)
                if isinstance(sa, Fn):
                    return self.call(BM(sa, v), [K(name), x], {}, st, node, fr)
                a = dict(o.attrs)
                a[name] = x
                st.heap[v.oid] = HInst(o.cls, a)
            elif isinstance(o, HCls):
                ns = dict(o.ns)
                ns[name] = x
                st.heap[v.oid] = HCls(o.name, o.mod, o.bases, ns, o.node)
                self.event(st, Event('clswrite', name, v, (x,), {}, node, st.locks, None, fr and fr.fn))
            elif isinstance(o, HMod):
                if self.watch_globals(o.name, name):
                    self.event(st, Event('gwrite', name, v, (x,), {}, node, st.locks, None, fr and fr.fn))
                ns = dict(o.ns)
                ns[name] = x
                st.heap[v.oid] = HMod(o.name, ns)
        elif isinstance(v, (T, Sym, Ext)):
            self.event(st, Event('extset', name, v, (self.freeze(x, st),), {}, node, st.locks, None, fr and fr.fn))
            st.tags[('attr', v, name)] = x
        return [(NONE, st)]

    # ---- subscripts
    def e_Slice(self, n, st, fr):
        nodes = [x if x is not None else ast.Constant(value=None) for x in (n.lower, n.upper, n.step)]
        return [(v if v.__class__ is Exc else T('slice', v), s) for v, s in self.evs(nodes, st, fr)]

    def e_Subscript(self, n, st, fr):
        out = []
        for vs, s in self.evs([n.value, n.slice], st, fr):
            out.extend([(vs, s)] if vs.__class__ is Exc else self.getitem(vs[0], vs[1], s, n, fr))
        return out

    def getitem(self, c, k, st, node, fr):
        if isinstance(c, K) and isinstance(k, T) and k.op == 'slice' and all(isinstance(a, K) for a in k.args):
            try:
                return [(K(c.v[slice(*[a.v for a in k.args])]), st)]
            except Exception as e:
                return [(self.exc(type(e).__name__, e, node), st)]
        if isinstance(c, K):
            if isinstance(k, K):
                try:
                    return [(K(c.v[k.v]), st)]
                except Exception as e:
                    return [(self.exc(type(e).__name__, e, node), st)]
            if c.v is None:
                return [(self.exc('TypeError', 'None[]', node), st)]
        if isinstance(c, Tup):
            return self.seq_item(c.items, frozenset(), k, st, node, lambda xs: Tup(xs))
        if isinstance(c, Ref):
            o = st.heap[c.oid]
            if isinstance(o, HList):
                return self.seq_item(o.items, o.tail, k, st, node, lambda xs: st.list(xs, o.tail))
            if isinstance(o, HDict):
                return self.dict_item(c, k, st, node, fr)
            if isinstance(o, HInst):
                m = self.cls_lookup(o.cls, '__getitem__', st)
                if o.cls == Ext('re.Match') and 'group' in o.attrs:
                    return self.call(o.attrs['group'], [k], {}, st, node, fr)
                if isinstance(m, Fn):
                    return self.call(BM(m, c), [k], {}, st, node, fr)
                return [(T('item', (c, self.freeze(k, st))), st)]
        if isinstance(c, T) and c.op == 'list' and isinstance(k, K) and isinstance(k.v, int):
            if not any(isinstance(a, T) and a.op == 'many' for a in c.args) and -len(c.args) <= k.v < len(c.args):
                return [(c.args[k.v], st)]
        if isinstance(c, T) and c.op == 'chars':
            if isinstance(k, K) and isinstance(k.v, int):
                if -len(c.args) <= k.v < len(c.args):
                    return [(self.chars([c.args[k.v]]), st)]
                return [(self.exc('IndexError', k.v, node), st)]
            if isinstance(k, T) and k.op == 'slice' and all(isinstance(a, K) for a in k.args):
                return [(self.chars(c.args[slice(*[a.v for a in k.args])]), st)]
        key = self.freeze(k, st)
        ov = st.tags.get(('item', c, key))
        if ov is not None:
            return [(ov, st)]
        kd = 'str' if self.kind(c, st) == 'str' else None
        return [(T('item', (c, key), kd), st)]

    def chars(self, cs):
        """a string of known length whose characters are unknown"""
        return T('chars', cs, 'str') if cs else K('')

    def seq_item(self, items, tail, k, st, node, mk):
        if isinstance(k, K) and isinstance(k.v, int):
            i = k.v
            if not tail:
                if -len(items) <= i < len(items):
                    return [(items[i], st)]
                return [(self.exc('IndexError', i, node), st)]
            if 0 <= i < len(items):
                return [(items[i], st)]
            alts = list(tail) + (list(items) if i < 0 else [])
            return self.alts(alts, st)
        if isinstance(k, T) and k.op == 'slice' and all(isinstance(a, K) for a in k.args):
            sl = slice(*[a.v for a in k.args])
            if not tail:
                return [(mk(items[sl]), st)]
            if (sl.start or 0) >= 0 and sl.stop is None and sl.step is None:
                return [(mk(items[sl]), st)]
            return [(st.list((), set(items) | set(tail)), st)]
        alts = list(items) + list(tail)
        if not alts:
            return [(self.exc('IndexError', '', node), st)]
        return self.alts(alts, st)

    def alts(self, vals, st):
        vals = list(dict.fromkeys(vals))
        out = []
        for i, v in enumerate(vals):
            out.append((v, st if i == len(vals) - 1 else st.copy()))
        return out

    def dict_item(self, c, k, st, node, fr):
        o = st.heap[c.oid]
        if k in o.items:
            return [(o.items[k], st)]
        if isinstance(k, K):
            hit = [v for kk, v in o.items.items() if isinstance(kk, K) and self.eqv(kk, k, st)]
            if hit:
                return [(hit[0], st)]
        symkeys = [kk for kk in o.items if not isinstance(kk, K)]
        if isinstance(k, K) and not symkeys:
            if o.rest:
                return self.alts([v for _, v in o.rest], st)
            if o.factory is not None:
                def put(v, s):
                    oo = s.heap[c.oid]
                    d = dict(oo.items)
                    d[k] = v
                    s.heap[c.oid] = HDict(d, oo.rest, oo.factory)
                    return [(v, s)]
                return bind(self.call(o.factory, [], {}, st, node, fr), put)
            return [(self.exc('KeyError', self.freeze(k, st), node), st)]
        out, cur = [], st
        fk = self.freeze(k, st)
        for kk in list(o.items):
            r = self.eqv(kk, k, cur)
            if r is True:
                return out + [(o.items[kk], cur)]
            if r is False:
                continue
            nxt = None
            for t, s in self.fact(('eq', frozenset((fk, kk))), cur):
                if t:
                    out.append((o.items[kk], s))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        if o.rest:
            return out + self.alts([v for _, v in o.rest], cur)
        return out + [(self.exc('KeyError', fk, node), cur)]

    def setitem(self, c, k, v, st, node, fr):
        if isinstance(c, Ref):
            o = st.heap[c.oid]
            if isinstance(o, HDict):
                if self.watch_items:
                    self.event(st, Event('setitem', '', c, (k, v), {}, node, st.locks, None, fr and fr.fn))
                d = dict(o.items)
                d[k] = v
                st.heap[c.oid] = HDict(d, o.rest, o.factory)
                return [(NONE, st)]
            if isinstance(o, HList):
                items = list(o.items)
                if isinstance(k, K) and isinstance(k.v, int) and -len(items) <= k.v < len(items) and (
                        not o.tail or k.v >= 0):
                    items[k.v] = v
                    st.heap[c.oid] = HList(o.kind, items, o.tail)
                elif isinstance(k, K) and not o.tail:
                    return [(self.exc('IndexError', k.v, node), st)]
                elif isinstance(k, T) and k.op == 'slice':
                    xs, xt = self.iter_of(v, st)
                    if all(isinstance(a, K) for a in k.args) and not o.tail and not xt and not self.in_loop(c, st):
                        items[slice(*[a.v for a in k.args])] = xs
                        st.heap[c.oid] = HList(o.kind, items)
                    else:
                        st.heap[c.oid] = HList(o.kind, (), set(items) | o.tail | set(xs) | set(xt))
                else:
                    st.heap[c.oid] = HList(o.kind, (), set(items) | o.tail | {v})
                return [(NONE, st)]
            if isinstance(o, HInst):
                m = self.cls_lookup(o.cls, '__setitem__', st)
                if isinstance(m, Fn):
                    return self.call(BM(m, c), [k, v], {}, st, node, fr)
        self.event(st, Event('extsetitem', '', c, (self.freeze(k, st), self.freeze(v, st)), {}, node, st.locks, None,
                             fr and fr.fn))
        if isinstance(c, (T, Sym, Ext)):
            st.tags[('item', c, self.freeze(k, st))] = v
        return [(NONE, st)]

    # ---- functions
    def e_Lambda(self, n, st, fr):
        return self.mkfn(n, st, fr)

    def mkfn(self, n, st, fr, cls=None):
        defs = list(n.args.defaults)
        kwd = [d for d in n.args.kw_defaults if d is not None]
        out = []
        for vs, s in self.evs(defs + kwd, st, fr):
            if vs.__class__ is Exc:
                out.append((vs, s))
                continue
            d = vs[:len(defs)]
            kd, i = [], len(defs)
            for x in n.args.kw_defaults:
                if x is None:
                    kd.append(None)
                else:
                    kd.append(vs[i])
                    i += 1
            out.append((Fn(n, fr.mod, fr.env, cls, tuple(d), tuple(kd)), s))
        return out

    def e_Call(self, n, st, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and fr.fn is not None:
            e = st.heap[fr.env]
            a = fr.fn.node.args
            first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
            if first and fr.fn.cls is not None and first in e.vars:
                return [(Super(fr.fn.cls, e.vars[first]), st)]
        out = []
        for f, s in self.ev(n.func, st, fr):
            if f.__class__ is Exc:
                out.append((f, s))
                continue
            for args, s2 in self.evs(n.args, s, fr):
                if args.__class__ is Exc:
                    out.append((args, s2))
                    continue
                acc = [((), s2)]
                for kw in n.keywords:
                    nxt = []
                    for ks, s3 in acc:
                        if ks.__class__ is Exc:
                            nxt.append((ks, s3))
                            continue
                        for v, s4 in self.ev(kw.value, s3, fr):
                            nxt.append((v, s4) if v.__class__ is Exc else (ks + ((kw.arg, v),), s4))
                    acc = nxt
                for ks, s3 in acc:
                    if ks.__class__ is Exc:
                        out.append((ks, s3))
                        continue
                    kw = {}
                    for name, v in ks:
                        if name is not None:
                            kw[name] = v
                            continue
                        o = s3.heap[v.oid] if isinstance(v, Ref) else None
                        if isinstance(o, HDict):
                            for kk, vv in o.items.items():
                                if isinstance(kk, K):
                                    kw[kk.v] = vv
                            if o.rest:
                                kw['**'] = v
                        else:
                            kw['**'] = v
                    out.extend(self.call(f, list(args), kw, s3, n, fr))
        return out

    def call(self, f, args, kw, st, node, fr):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, st, node, fr)
        if isinstance(f, BM):
            if isinstance(f.fn, Fn):
                return self.call_fn(f.fn, [f.self] + args, kw, st, node, fr)
            return self.call(f.fn, [f.self] + args, kw, st, node, fr)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + args, k, st, node, fr)
        if isinstance(f, (SM, CM)):
            return self.call(f.fn, args, kw, st, node, fr)
        if isinstance(f, Meth):
            r = self.call_method(f.recv, f.name, args, kw, st, node, fr)
            if r is not None:
                return r
            return self.opaque_call(f.name, f.recv, args, kw, st, node, fr)
        if isinstance(f, Ext):
            h = self.intr.get(f.name)
            if h is not None:
                r = h(self, args, kw, st, node, fr)
                if r is not None:
                    return r
            r = self.call_builtin(f.name, args, kw, st, node, fr)
            if r is None:
                r = self.call_stub(f.name, args, kw, st, node, fr)
            if r is not None:
                return r
            return self.opaque_call(f.name, NONE, args, kw, st, node, fr)
        if isinstance(f, Ref):
            o = st.heap[f.oid]
            if isinstance(o, HCls):
                return self.instantiate(f, args, kw, st, node, fr)
            if isinstance(o, HInst):
                m = self.cls_lookup(o.cls, '__call__', st)
                if isinstance(m, Fn):
                    return self.call_fn(m, [f] + args, kw, st, node, fr)
                return self.opaque_call('__call__', f, args, kw, st, node, fr)
            return [(self.exc('TypeError', 'not callable', node), st)]
        if isinstance(f, T) and f.op == 'attr':
            recv, name = f.args[0], f.args[1].v
            h = self.intr.get('.' + name)
            if h is not None:
                r = h(self, [recv] + args, kw, st, node, fr)
                if r is not None:
                    return r
            if name in ('acquire', 'release'):
                if name == 'acquire':
                    st.locks = st.locks + (recv,)
                elif recv in st.locks:
                    i = len(st.locks) - 1 - st.locks[::-1].index(recv)
                    st.locks = st.locks[:i] + st.locks[i + 1:]
            r = self.call_method(recv, name, args, kw, st, node, fr)
            if r is not None:
                return r
            return self.opaque_call(name, recv, args, kw, st, node, fr)
        if isinstance(f, K):
            return [(self.exc('TypeError', 'not callable', node), st)]
        return self.opaque_call('<call>', f, args, kw, st, node, fr)

    def opaque_call(self, name, recv, args, kw, st, node, fr):
        if name == '<call>':
            h = self.intr.get('<call>')
            if h is not None:
                r = h(self, [recv] + args, kw, st, node, fr)
                if r is not None:
                    return r
        fa = Tup([self.freeze(a, st) for a in args])
        fk = Tup([Tup((K(k), self.freeze(v, st))) for k, v in sorted(kw.items())])
        pure = recv == NONE and any(name.startswith(p) for p in PURE) or \
            recv != NONE and (name in STR_KIND or self.kind(recv, st) in ('str', 'int', 'float', 'bytes', 'dict',
                                                                          'list', 'tuple', 'set'))
        fresh = NONE
        if not pure:
            if st.loops:
                fresh = K('L%s.%s' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)))
            else:
                st.nf += 1
                fresh = K(st.nf)
        kind = STR_KIND.get(name.rpartition('.')[2]) if recv != NONE else None
        if isinstance(recv, Ref) and isinstance(st.heap.get(recv.oid), (HList, HDict)):
            recv = self.freeze(recv, st)
        res = T('call', (K(name), recv, fa, fk, fresh), kind)
        e = Event('call', name, recv, fa.items, {p.items[0].v: p.items[1] for p in fk.items}, node, st.locks, res,
                  fr and fr.fn)
        out = []
        if self.may_raise is not None:
            x = self.may_raise(self, e, st)
            if x is not None:
                s2 = st.copy()
                self.event(s2, Event('raised', name, recv, e.args, e.kw, node, st.locks, x, fr and fr.fn))
                out.append((Exc(x, node), s2))
        self.event(st, e)
        out.append((res, st))
        return out

    def fqual(self, f, st):
        q = getattr(f.node, '_fq', None)
        if q is None:
            m = f.node._mod.name if hasattr(f.node, '_mod') else '?'
            q = f.node._fq = m + '.' + qual(f.node)
        return q

    def call_fn(self, f, args, kw, st, node, fr):
        q = self.fqual(f, st)
        h = self.intr.get(q)
        if h is not None:
            r = h(self, args, kw, st, node, fr)
            if r is not None:
                return r
        self.calls[q] = self.calls.get(q, 0) + 1
        if self.on_call is not None:
            self.on_call(self, f, q, args, kw, st, node)
        if self.depth > self.max_depth:
            self.imprecise.add('depth:' + q)
            return [(T('deep', (K(q),)), st)]
        bound = self.bind_args(f, args, kw, st, node)
        if isinstance(bound, Exc):
            return [(bound, st)]
        env = st.alloc(HEnv(bound, f.env, f.mod))
        fr2 = Frame(env.oid, f.mod, f)
        decos = [ast.dump(d) for d in getattr(f.node, 'decorator_list', [])]
        fr2.coroutine = any('coroutine' in d for d in decos) or isinstance(f.node, ast.AsyncFunctionDef)
        out = []
        self.depth += 1
        st.frames = st.frames + (env.oid,)
        pool = any('run_on_executor' in d for d in decos) and EXECUTOR not in st.locks
        if pool:
            st.locks = st.locks + (EXECUTOR,)
        try:
            if isinstance(f.node, ast.Lambda):
                out = self.ev(f.node.body, st, fr2)
            else:
                gen = has_yield(f.node) and not fr2.coroutine
                yl = None
                if gen:
                    yl = st.list((), (), 'iter')
                    fr2.yields = yl
                for kind, v, s in self.block(f.node.body, st, fr2):
                    if kind == 'exc':
                        out.append((v, s))
                    elif gen:
                        out.append((yl, s))
                    elif kind == 'ret':
                        out.append((v, s))
                    else:
                        out.append((NONE, s))
        finally:
            self.depth -= 1
        for _, s in out:
            s.frames = s.frames[:-1]
            if pool:
                s.locks = tuple(x for x in s.locks if x != EXECUTOR)
        return self.dedupe(out)

    def dedupe(self, out):
        return out

    def bind_args(self, f, args, kw, st, node):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        kw = dict(kw)
        dstar = kw.pop('**', None)
        pos = list(args)
        star = None
        flat = []
        for x in pos:
            if isinstance(x, Star):
                star = x
            elif star is not None:
                star = Star(T('mix', (star.v, x)))
            else:
                flat.append(x)
        pos = flat
        i = 0
        for i, (p, v) in enumerate(zip(params, pos)):
            vars[p] = v
        extra = pos[len(params):]
        if extra and not a.vararg:
            return self.exc('TypeError', '%s() takes %d positional arguments but %d were given' % (
                f.name, len(params), len(pos)), node)
        ndef = len(f.defaults)
        for j, p in enumerate(params):
            if p in vars:
                if p in kw:
                    if a.posonlyargs and p in [x.arg for x in a.posonlyargs]:
                        continue
                    return self.exc('TypeError', '%s() got multiple values for argument %s' % (f.name, p), node)
                continue
            if p in kw:
                vars[p] = kw.pop(p)
            elif star is not None:
                vars[p] = T('elem', (self.freeze(star.v, st),))
            elif dstar is not None and j < len(params) - ndef:
                vars[p] = T('item', (self.freeze(dstar, st), K(p)))
            elif j >= len(params) - ndef:
                vars[p] = f.defaults[j - (len(params) - ndef)]
                if dstar is not None:
                    pass
            else:
                return self.exc('TypeError', '%s() missing required argument %s' % (f.name, p), node)
        if a.vararg:
            tail = [star] if star is not None and len(pos) >= len(params) else []
            vars[a.vararg.arg] = Tup(extra) if not tail else st.list(extra, {T('elem', (self.freeze(star.v, st),))},
                                                                     'list')
        for j, p in enumerate(a.kwonlyargs):
            if p.arg in kw:
                vars[p.arg] = kw.pop(p.arg)
            elif f.kwdefaults[j] is not None:
                vars[p.arg] = f.kwdefaults[j]
            elif dstar is not None:
                vars[p.arg] = T('item', (self.freeze(dstar, st), K(p.arg)))
            else:
                return self.exc('TypeError', '%s() missing keyword %s' % (f.name, p.arg), node)
        if a.kwarg:
            rest = ()
            if dstar is not None:
                fz = self.freeze(dstar, st)
                rest = {(T('elem', (fz,)), T('item', (fz, T('elem', (fz,)))))}
                if isinstance(dstar, Ref) and isinstance(st.heap[dstar.oid], HDict):
                    rest = st.heap[dstar.oid].rest
            vars[a.kwarg.arg] = st.dict({K(k): v for k, v in kw.items()}, rest)
        elif kw:
            return self.exc('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, sorted(kw)), node)
        return vars

    def instantiate(self, c, args, kw, st, node, fr):
        o = st.heap[c.oid]
        q = (o.mod or '') + '.' + o.name
        h = self.intr.get(q)
        if h is not None:
            r = h(self, args, kw, st, node, fr)
            if r is not None:
                return r
        if self.class_intrinsic is not None:
            r = self.class_intrinsic(self, c, o, args, kw, st, node, fr)
            if r is not None:
                return r
        bases = self.mro(c, st)
        if any(isinstance(b, Ext) and b.name in ('enum.Enum', 'enum.IntEnum') for b in bases):
            for v in o.ns.values():
                if args and v == args[0]:
                    return [(v, st)]
            return [(T('enum', (c, self.freeze(args[0], st) if args else NONE)), st)]
        new = self.cls_lookup(c, '__new__', st)
        if isinstance(new, SM):
            new = new.fn
        if isinstance(new, Fn):
            made = self.call_fn(new, [c] + args, kw, st, node, fr)
        else:
            made = [(st.alloc(HInst(c)), st)]

        def init(v, s):
            if not (isinstance(v, Ref) and isinstance(s.heap[v.oid], HInst)):
                return [(v, s)]
            if c not in self.mro(s.heap[v.oid].cls, s):
                return [(v, s)]
            m = self.cls_lookup(s.heap[v.oid].cls, '__init__', s)
            if isinstance(m, Fn):
                return bind(self.call_fn(m, [v] + args, kw, s, node, fr), lambda _, s2: [(v, s2)])
            ext = self.has_ext_base(s.heap[v.oid].cls, s)
            if self.is_exception_class(c, s):
                s.heap[v.oid] = HInst(c, {'args': Tup(args)})
                return [(v, s)]
            if ext and (args or kw):
                a = dict(s.heap[v.oid].attrs)
                nodec = s.heap[c.oid].node
                s.heap[v.oid] = HInst(c, a)
                return [(v, s)]
            fields = self.dataclass_fields(c, s)
            if fields is not None:
                a = {}
                for (fname, dflt), i in zip(fields, range(len(fields))):
                    if i < len(args):
                        a[fname] = args[i]
                    elif fname in kw:
                        a[fname] = kw[fname]
                    elif dflt is not None:
                        a[fname] = dflt
                    else:
                        return [(self.exc('TypeError', 'missing ' + fname, node), s)]
                s.heap[v.oid] = HInst(c, a)
                return [(v, s)]
            if args or kw:
                if not isinstance(new, Fn):
                    return [(self.exc('TypeError', '%s() takes no arguments' % o.name, node), s)]
            return [(v, s)]
        return bind(made, init)

    def dataclass_fields(self, c, st):
        o = st.heap[c.oid]
        n = o.node
        if n is None or not any('dataclass' in ast.dump(d) for d in n.decorator_list):
            if not any(isinstance(b, Ext) and b.name == 'typing.NamedTuple' for b in o.bases):
                return None
        out = []
        for s in n.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                out.append((s.target.id, o.ns.get(s.target.id)))
        return out

    def is_exception_class(self, c, st):
        for b in self.mro(c, st):
            if isinstance(b, Ext) and b.name.startswith('builtins.'):
                x = getattr(_b, b.name[9:], None)
                if isinstance(x, type) and issubclass(x, BaseException):
                    return True
        return False

    # ---- comprehensions
    def comp(self, n, st, fr, kind):
        env = st.alloc(HEnv({}, fr.env, fr.mod))
        f2 = Frame(env.oid, fr.mod, fr.fn)
        f2.globals, f2.coroutine, f2.yields = fr.globals, fr.coroutine, fr.yields
        res = st.dict() if kind == 'dict' else st.list((), (), 'set' if kind == 'set' else 'list')

        def go(i, s):
            """outcomes [(kind,val,st)]"""
            if i == len(n.generators):
                out = []
                if kind == 'dict':
                    for kv, s2 in self.evs([n.key, n.value], s, f2):
                        if kv.__class__ is Exc:
                            out.append(('exc', kv, s2))
                        else:
                            self.setitem(res, kv[0], kv[1], s2, n, f2)
                            out.append((None, None, s2))
                    return out
                for v, s2 in self.ev(n.elt, s, f2):
                    if v.__class__ is Exc:
                        out.append(('exc', v, s2))
                    else:
                        self.append(res, v, s2)
                        out.append((None, None, s2))
                return out
            g = n.generators[i]
            out = []
            for it, s2 in self.ev(g.iter, s, f2):
                if it.__class__ is Exc:
                    out.append(('exc', it, s2))
                    continue

                def body(el, s3, g=g, i=i):
                    r = []
                    for kd, vv, s4 in self.assign(g.target, el, s3, f2):
                        if kd is not None:
                            r.append((kd, vv, s4))
                            continue
                        states = [s4]
                        ok = []
                        for c in g.ifs:
                            nxt = []
                            for s5 in states:
                                for cv, s6 in self.ev(c, s5, f2):
                                    if cv.__class__ is Exc:
                                        r.append(('exc', cv, s6))
                                        continue
                                    for t, s7 in self.truth(cv, s6, f2):
                                        if t:
                                            nxt.append(s7)
                                        else:
                                            r.append((None, None, s7))
                            states = nxt
                        for s5 in states:
                            r.extend(go(i + 1, s5))
                    return r
                out.extend(self.iterate(it, s2, body, f2))
            return out
        return [(v, s) if k == 'exc' else (res, s) for k, v, s in go(0, st)]

    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, 'list')

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, 'set')

    def e_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, 'dict')

    def e_Await(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        rs = self.ev(n.value, st, fr) if n.value is not None else [(NONE, st)]
        if fr.coroutine or fr.yields is None:
            return rs
        if fr.hook is not None:
            return bind(rs, lambda v, s: fr.hook(v, s))

        def f(v, s):
            self.append(fr.yields, v, s)
            return [(NONE, s)]
        return bind(rs, f)

    def e_YieldFrom(self, n, st, fr):
        def f(v, s):
            if fr.yields is not None:
                self.extend(fr.yields, v, s)
            return [(NONE, s)]
        return bind(self.ev(n.value, st, fr), f)

    def e_Starred(self, n, st, fr):
        return bind(self.ev(n.value, st, fr), lambda v, s: [(Star(v), s)])

    # ---- list primitives
    def in_loop(self, ref, st):
        return any(ref.oid < w for w in st.loops)

    def append(self, ref, v, st):
        o = st.heap[ref.oid]
        if o.kind == 'set' and v in o.items:
            return
        if o.tail or self.in_loop(ref, st):
            st.heap[ref.oid] = HList(o.kind, o.items, o.tail | {v})
        else:
            st.heap[ref.oid] = HList(o.kind, o.items + (v,), o.tail)

    def extend(self, ref, it, st):
        items, tail = self.iter_of(it, st)
        for i in items:
            self.append(ref, i, st)
        if tail:
            o = st.heap[ref.oid]
            st.heap[ref.oid] = HList(o.kind, o.items, o.tail | set(tail))

    def iter_of(self, v, st):
        """(exact leading items, alternatives for zero or more further items)"""
        if isinstance(v, Tup):
            return list(v.items), []
        if isinstance(v, K):
            if isinstance(v.v, (str, bytes, tuple, frozenset, range)):
                return [K(x) for x in v.v], []
            return [], []
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, HList):
                return list(o.items), sorted(o.tail, key=repr)
            if isinstance(o, HDict):
                return list(o.items), sorted((k for k, _ in o.rest), key=repr)
            if isinstance(o, HCls):   # enum
                return [x for k, x in o.ns.items() if not k.startswith('_') and isinstance(x, K)], []
        if isinstance(v, T) and v.op == 'chars':
            return [self.chars([c]) for c in v.args], []
        if isinstance(v, T) and v.op in ('list', 'set', 'dict'):
            items, tail = [], []
            for a in v.args:
                if isinstance(a, T) and a.op == 'many':
                    tail.extend(a.args)
                elif tail:
                    tail.append(a)
                else:
                    items.append(a)
            if v.op == 'dict':
                items = [x.items[0] for x in items]
                tail = [x.items[0] for x in tail]
            return items, tail
        fz = self.freeze(v, st)
        kind = None
        if isinstance(fz, T) and fz.op == 'call' and fz.args[0].v in ('split', 'splitlines', 'rsplit', 'keys') \
                and fz.args[1] != NONE:
            kind = 'str'
        if isinstance(fz, T) and fz.op == 'range':
            kind = 'int'
        if self.kind(v, st) == 'str':
            kind = 'str'
        if isinstance(fz, T) and fz.op == 'items':
            e = T('elem', fz.args)
            return [], [Tup((e, T('item', (fz.args[0], e))))]
        return [], [T('elem', (fz,), kind)]

    def mentions(self, key, terms):
        for a in key:
            it = a if isinstance(a, frozenset) else (a,)
            for x in it:
                if isinstance(x, V):
                    stack = [x]
                    while stack:
                        y = stack.pop()
                        if y in terms:
                            return True
                        if isinstance(y, T):
                            stack.extend(z for z in y.args if isinstance(z, V))
                            for z in y.args:
                                if isinstance(z, frozenset):
                                    stack.extend(z)
                        elif isinstance(y, Tup):
                            stack.extend(y.items)
        return False

    def iterate(self, it, st, body, fr, orelse=None):
        """run body(elem, st) -> outcomes for every element of `it`; returns outcomes (None = fell through)."""
        if isinstance(it, Ref) and isinstance(st.heap[it.oid], HInst):
            m = self.cls_lookup(st.heap[it.oid].cls, '__iter__', st)
            if isinstance(m, Fn):
                out = []
                for v, s in self.call(BM(m, it), [], {}, st, None, fr):
                    if v.__class__ is Exc:
                        out.append(('exc', v, s))
                    elif v == it:
                        out.extend(self.iterate(T('iter', (v,)), s, body, fr, orelse))
                    else:
                        out.extend(self.iterate(v, s, body, fr, orelse))
                return out
        if isinstance(it, K) and not isinstance(it.v, (str, bytes, tuple, frozenset, range)):
            return [('exc', self.exc('TypeError', 'not iterable'), st)]
        items, tail = self.iter_of(it, st)
        out, cur, broke = [], [st], []
        live = isinstance(it, Ref) and isinstance(st.heap[it.oid], HList) and st.heap[it.oid].kind == 'iter' \
            and bool(items) and not self.in_loop(it, st)
        for e in items:
            nxt = []
            for s in cur:
                if live:
                    # an iterator is used up as it goes; the body may take from it too
                    o = s.heap[it.oid]
                    if not o.items:
                        nxt.append(s)
                        continue
                    e = o.items[0]
                    s.heap[it.oid] = HList(o.kind, o.items[1:], o.tail)
                for k, v, s2 in body(e, s):
                    if k in (None, 'cnt'):
                        nxt.append(s2)
                    elif k == 'brk':
                        broke.append(s2)
                    else:
                        out.append((k, v, s2))
            cur = self.merge(nxt)
        if tail:
            cur2 = []
            for s in cur:
                o, b, exits = self.fix(tail, s, body)
                out.extend(o)
                broke.extend(b)
                cur2.extend(exits)
            cur = self.merge(cur2)
        for s in cur:
            if orelse is not None:
                out.extend(orelse(s))
            else:
                out.append((None, None, s))
        out.extend((None, None, s) for s in broke)
        return out

    def merge(self, states):
        """join states that are indistinguishable (identical heap, facts and trace)."""
        if len(states) < 2:
            return states
        seen, out = set(), []
        for s in states:
            k = (frozenset(s.facts.items()), tuple(e.key() for e in s.trace), self.canon_all(s))
            if k in seen:
                continue
            seen.add(k)
            out.append(s)
        return out

    def canon_all(self, s):
        return tuple((o, id(v)) for o, v in s.heap.items())

    def fix(self, tail, st, body):
        mark = st.nid
        head_heap = st.heap
        base = dict(st.heap)
        st.loops = st.loops + (mark,)
        seen = {self.canon(st, base, mark)}
        exits, out, broke = ([] if self.nonempty else [st.copy()]), [], []
        frontier = [st]
        rnd = 0
        drop = set(tail)
        for t in tail:
            drop |= set(t.items) if isinstance(t, Tup) else set()
        drop = {d for d in drop if not isinstance(d, K)}
        while frontier:
            if rnd > 6:
                self.imprecise.add('loop-not-converged')
                break
            new = []
            for s in frontier:
                for e in tail:
                    s1 = s.copy()
                    for k, v, s2 in body(e, s1):
                        if k in (None, 'cnt'):
                            if drop:
                                s2.facts = {f: t for f, t in s2.facts.items() if not self.mentions(f, drop)}
                            if rnd >= 1:
                                self.widen(s, s2, mark)
                            c = self.canon(s2, base, mark)
                            if c not in seen:
                                seen.add(c)
                                exits.append(s2.copy())
                                new.append(s2)
                        elif k == 'brk':
                            broke.append(s2)
                        else:
                            out.append((k, v, s2))
            frontier = new
            rnd += 1
        for s in exits + broke + [o[2] for o in out]:
            if s.loops and s.loops[-1] == mark:
                s.loops = s.loops[:-1]
        return out, broke, exits

    def widen(self, old, new, mark):
        def w(a, b, name):
            if a == b or a is None:
                return b
            if isinstance(b, K) and isinstance(b.v, (int, float)) and not isinstance(b.v, bool) and isinstance(a, K) \
                    and isinstance(a.v, (int, float)) and not isinstance(a.v, bool):
                return Sym('widened:' + name, type(b.v).__name__)
            if isinstance(b, T) and b.op in ('cat', 'acc') or isinstance(b, T) and b.op in OPN.values() or \
                    isinstance(a, T) and a.op == 'acc':
                fa = a.args if isinstance(a, T) and a.op in ('cat', 'acc') else (a,)
                fb = []
                stack = [b]
                while stack:
                    x = stack.pop()
                    if isinstance(x, T) and x.op in ('cat', 'acc'):
                        stack.extend(x.args)
                    elif isinstance(x, T) and x.op in OPN.values() and x != a:
                        stack.extend(x.args)
                    else:
                        fb.append(x)
                return T('acc', tuple(sorted(set(fa) | set(fb), key=repr)), self.kind(b, new))
            return b
        for oid, o in list(new.heap.items()):
            if oid >= mark:
                continue
            p = old.heap.get(oid)
            if p is o or p is None:
                continue
            if isinstance(o, HEnv):
                new.heap[oid] = HEnv({k: w(p.vars.get(k), x, k) for k, x in o.vars.items()}, o.parent, o.mod)
            elif isinstance(o, HInst):
                new.heap[oid] = HInst(o.cls, {k: w(p.attrs.get(k), x, k) for k, x in o.attrs.items()})

    def canon(self, st, base, mark):
        ren = {}
        out = []

        def val(v, d=0):
            if isinstance(v, Ref):
                if v.oid < mark:
                    return ('r', v.oid)
                if v.oid in ren:
                    return ('n', ren[v.oid])
                if d > 30:
                    return ('deep',)
                ren[v.oid] = len(ren)
                return ('n', ren[v.oid], obj(st.heap.get(v.oid), d + 1))
            if isinstance(v, Tup):
                return ('t',) + tuple(val(x, d + 1) for x in v.items)
            return v

        def obj(o, d=0):
            if isinstance(o, HList):
                return (o.kind, tuple(val(x, d) for x in o.items), frozenset(val(x, d) for x in o.tail))
            if isinstance(o, HDict):
                return ('dict', tuple((val(k, d), val(x, d)) for k, x in o.items.items()),
                        frozenset((val(k, d), val(x, d)) for k, x in o.rest))
            if isinstance(o, HInst):
                return ('inst', o.cls, tuple(sorted((k, val(x, d)) for k, x in o.attrs.items()) if False else
                                             tuple((k, val(x, d)) for k, x in sorted(o.attrs.items()))))
            if isinstance(o, HEnv):
                return ('env', tuple((k, val(x, d)) for k, x in sorted(o.vars.items())))
            if isinstance(o, (HMod, HCls)):
                return ('ns', tuple((k, val(x, d)) for k, x in sorted(o.ns.items())))
            return ('none',)
        for oid in sorted(o for o in st.heap if o < mark):
            if st.heap[oid] is not base.get(oid):
                out.append((oid, obj(st.heap[oid])))
        tr = frozenset(e.key() for e in st.trace)
        return (tuple(out), frozenset(st.facts.items()), tr, st.locks)

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        """-> [(kind, val, st)]"""
        cur = [st]
        out = []
        for s in stmts:
            nxt = []
            for c in cur:
                for k, v, s2 in self.stmt(s, c, fr):
                    if k is None:
                        nxt.append(s2)
                    else:
                        out.append((k, v, s2))
            cur = self.merge(nxt) if len(nxt) > 8 else nxt
            if len(cur) > 20000:
                raise AnalysisError('state explosion at ' + loc(s))
            if not cur:
                break
        out.extend((None, None, c) for c in cur)
        return out

    def stmt(self, n, st, fr):
        self.steps += 1
        m = getattr(self, 's_' + n.__class__.__name__, None)
        if m is None:
            raise AnalysisError('statement %s at %s' % (n.__class__.__name__, loc(n)))
        if not st.heap.watch:
            return m(n, st, fr)
        out = m(n, st, fr)
        for k, v, s in out:
            if s.heap.log:
                log, s.heap.log = s.heap.log, ()
                for oid, old, new in log:
                    self.event(s, Event('shared', old.__class__.__name__, Ref(oid), (), {'old': old, 'new': new}, n, s.locks,
                                        None, fr.fn))
        return out

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(None, None, st)]
        return [('exc', v, s) if v.__class__ is Exc else (None, None, s) for v, s in self.ev(n.value, st, fr)]

    def s_Pass(self, n, st, fr):
        return [(None, None, st)]

    def s_Break(self, n, st, fr):
        return [('brk', None, st)]

    def s_Continue(self, n, st, fr):
        return [('cnt', None, st)]

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [('ret', NONE, st)]
        return [('exc', v, s) if v.__class__ is Exc else ('ret', v, s) for v, s in self.ev(n.value, st, fr)]

    def s_Global(self, n, st, fr):
        fr.globals = (fr.globals or frozenset()) | set(n.names)
        return [(None, None, st)]

    def s_Nonlocal(self, n, st, fr):
        e = st.heap[fr.env]
        d = dict(e.vars)
        old = d.get('\0nonlocal')
        d['\0nonlocal'] = K(frozenset(n.names) | (old.v if old else frozenset()))
        st.heap[fr.env] = HEnv(d, e.parent, e.mod)
        return [(None, None, st)]

    def s_FunctionDef(self, n, st, fr, cls=None):
        out = []
        for f, s in self.mkfn(n, st, fr, cls):
            if f.__class__ is Exc:
                out.append(('exc', f, s))
                continue
            rs = [(f, s)]
            for d in reversed(n.decorator_list):
                nxt = []
                for v, s2 in rs:
                    nxt.extend([(v, s2)] if v.__class__ is Exc else self.decorate(d, v, s2, fr, n))
                rs = nxt
            for v, s2 in rs:
                if v.__class__ is Exc:
                    out.append(('exc', v, s2))
                else:
                    self.assign_name(n.name, v, s2, fr)
                    out.append((None, None, s2))
        return out

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, d, v, st, fr, n):
        nm = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
        if nm == 'staticmethod':
            return [(SM(v), st)]
        if nm == 'classmethod':
            return [(CM(v), st)]
        if nm == 'property':
            return [(Prop(v), st)]
        if nm in ('abstractmethod', 'abstractproperty', 'coroutine', 'run_on_executor', 'contextmanager', 'override'):
            return [(v, st)]
        if nm == 'setter' and isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name):
            old = self.lookup(d.value.id, st, fr)[0][0]
            return [(Prop(old.fget if isinstance(old, Prop) else None, v), st)]
        out = []
        for dv, s in self.ev(d, st, fr):
            if dv.__class__ is Exc:
                out.append((dv, s))
            elif isinstance(dv, (Fn, BM, Ref, Partial)) or isinstance(dv, Ext) and dv.name in STUB_DECORATORS:
                for r, s2 in self.call(dv, [v], {}, s, d, fr):
                    if isinstance(r, Fn) and r != v and isinstance(fr.fn, type(None)):
                        pass
                    out.append((r, s2))
            else:
                out.append((v, s))
        return out

    def s_ClassDef(self, n, st, fr):
        out = []
        for bs, s in self.evs(n.bases, st, fr):
            if bs.__class__ is Exc:
                out.append(('exc', bs, s))
                continue
            modname = s.heap[fr.mod].name
            ref = s.alloc(HCls(n.name, modname, bs, {'__qualname__': K(n.name), '__module__': K(modname)}, n))
            env = s.alloc(HEnv({}, fr.env, fr.mod))
            f2 = Frame(env.oid, fr.mod, None)
            states = [s]
            for b in n.body:
                nxt = []
                for s1 in states:
                    if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        rs = self.s_FunctionDef(b, s1, Frame(env.oid, fr.mod, None), ref)
                    else:
                        rs = self.stmt(b, s1, f2)
                    for k, v, s2 in rs:
                        if k is None:
                            nxt.append(s2)
                        else:
                            out.append((k, v, s2))
                states = nxt
            for s1 in states:
                vars = dict(s1.heap[env.oid].vars)
                # functions of the class body do not close over the class scope
                fixed = {}
                for k, v in vars.items():
                    fixed[k] = self.unscope(v, env.oid, fr.env)
                o = s1.heap[ref.oid]
                ns = dict(o.ns)
                ns.update(fixed)
                s1.heap[ref.oid] = HCls(o.name, o.mod, o.bases, ns, n)
                self.assign_name(n.name, ref, s1, fr)
                out.append((None, None, s1))
        return out

    def unscope(self, v, env, parent):
        if isinstance(v, Fn) and v.env == env:
            return Fn(v.node, v.mod, parent, v.cls, v.defaults, v.kwdefaults)
        if isinstance(v, SM):
            return SM(self.unscope(v.fn, env, parent))
        if isinstance(v, CM):
            return CM(self.unscope(v.fn, env, parent))
        if isinstance(v, Prop):
            return Prop(self.unscope(v.fget, env, parent), v.fset and self.unscope(v.fset, env, parent))
        return v

    def s_Assign(self, n, st, fr):
        out = []
        for v, s in self.ev(n.value, st, fr):
            if v.__class__ is Exc:
                out.append(('exc', v, s))
                continue
            states = [s]
            for t in n.targets:
                nxt = []
                for s1 in states:
                    for k, x, s2 in self.assign(t, v, s1, fr):
                        if k is None:
                            nxt.append(s2)
                        else:
                            out.append((k, x, s2))
                states = nxt
            out.extend((None, None, s1) for s1 in states)
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(None, None, st)]
        return [o for v, s in self.ev(n.value, st, fr)
                for o in ([('exc', v, s)] if v.__class__ is Exc else self.assign(n.target, v, s, fr))]

    def s_AugAssign(self, n, st, fr):
        load = {ast.Name: lambda t: ast.Name(id=t.id, ctx=ast.Load()),
                ast.Attribute: lambda t: ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()),
                ast.Subscript: lambda t: ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())}
        tgt = load[n.target.__class__](n.target)
        ast.copy_location(tgt, n.target)
        tgt._mod = getattr(n, '_mod', None)
        out = []
        for vs, s in self.evs([tgt, n.value], st, fr):
            if vs.__class__ is Exc:
                out.append(('exc', vs, s))
                continue
            a, b = vs
            if isinstance(n.op, ast.Add) and isinstance(a, Ref) and isinstance(s.heap[a.oid], HList):
                self.extend(a, b, s)
                out.append((None, None, s))
                continue
            if isinstance(n.op, ast.BitOr) and isinstance(a, Ref) and isinstance(s.heap[a.oid], HDict):
                self.dict_update(a, [b], {}, s)
                out.append((None, None, s))
                continue
            for v, s2 in self.binop(n.op, a, b, s, n, fr):
                if v.__class__ is Exc:
                    out.append(('exc', v, s2))
                else:
                    out.extend(self.assign(n.target, v, s2, fr))
        return out

    def assign(self, t, v, st, fr):
        """-> outcomes"""
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st, fr, t)
            return [(None, None, st)]
        if isinstance(t, ast.Attribute):
            out = []
            for o, s in self.ev(t.value, st, fr):
                if o.__class__ is Exc:
                    out.append(('exc', o, s))
                else:
                    for r, s2 in self.setattr(o, t.attr, v, s, t, fr):
                        out.append(('exc', r, s2) if r.__class__ is Exc else (None, None, s2))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for vs, s in self.evs([t.value, t.slice], st, fr):
                if vs.__class__ is Exc:
                    out.append(('exc', vs, s))
                    continue
                for r, s2 in self.setitem(vs[0], vs[1], v, s, t, fr):
                    out.append(('exc', r, s2) if r.__class__ is Exc else (None, None, s2))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            exact = None
            if isinstance(v, (Tup, K)) or isinstance(v, Ref):
                items, tail = self.iter_of(v, st)
                if not tail:
                    exact = items
            elif isinstance(v, T) and v.op in ('list',):
                items, tail = self.iter_of(v, st)
                if not tail:
                    exact = items
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if exact is not None:
                if stars:
                    i = stars[0]
                    after = n - i - 1
                    if len(exact) < n - 1:
                        return [('exc', self.exc('ValueError', 'unpack', t), st)]
                    vals = exact[:i] + [st.list(exact[i:len(exact) - after])] + exact[len(exact) - after:]
                else:
                    if len(exact) != n:
                        return [('exc', self.exc('ValueError', 'unpack', t), st)]
                    vals = exact
            else:
                if isinstance(v, Ref) and isinstance(st.heap[v.oid], HList):
                    al = list(st.heap[v.oid].items) + sorted(st.heap[v.oid].tail, key=repr)
                    vals = [al[0] if len(al) == 1 else T('oneof', al) for _ in t.elts]
                else:
                    fz = self.freeze(v, st)
                    kd = None
                    if isinstance(fz, T) and fz.op == 'call' and fz.args[0].v in ('split', 'rsplit', 'partition') \
                            and fz.args[1] != NONE:
                        kd = 'str'
                    vals = [T('item', (fz, K(i)), kd) for i in range(n)]
            states = [st]
            out = []
            for e, x in zip(t.elts, vals):
                nxt = []
                for s in states:
                    for k, y, s2 in self.assign(e, x, s, fr):
                        if k is None:
                            nxt.append(s2)
                        else:
                            out.append((k, y, s2))
                states = nxt
            return out + [(None, None, s) for s in states]
        raise AnalysisError('assignment target at ' + loc(t))

    def s_Delete(self, n, st, fr):
        states, out = [st], []
        for t in n.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Name):
                    if fr.env is not None and not (fr.globals and t.id in fr.globals):
                        e = s.heap[fr.env]
                        d = dict(e.vars)
                        d.pop(t.id, None)
                        s.heap[fr.env] = HEnv(d, e.parent, e.mod)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for vs, s2 in self.evs([t.value, t.slice], s, fr):
                        if vs.__class__ is Exc:
                            out.append(('exc', vs, s2))
                            continue
                        c, k = vs
                        o = s2.heap[c.oid] if isinstance(c, Ref) else None
                        if isinstance(o, HDict):
                            if k in o.items:
                                d = dict(o.items)
                                d.pop(k)
                                s2.heap[c.oid] = HDict(d, o.rest, o.factory)
                            elif isinstance(k, K) and all(isinstance(x, K) for x in o.items) and not o.rest:
                                out.append(('exc', self.exc('KeyError', k, t), s2))
                                continue
                        elif isinstance(o, HList):
                            if isinstance(k, K) and isinstance(k.v, int) and -len(o.items) <= k.v < len(o.items) \
                                    and not o.tail:
                                it = list(o.items)
                                del it[k.v]
                                s2.heap[c.oid] = HList(o.kind, it)
                            elif isinstance(k, T) and k.op == 'slice' and all(isinstance(a, K) for a in k.args) \
                                    and not o.tail:
                                it = list(o.items)
                                del it[slice(*[a.v for a in k.args])]
                                s2.heap[c.oid] = HList(o.kind, it)
                            else:
                                s2.heap[c.oid] = HList(o.kind, (), set(o.items) | o.tail)
                        nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for v, s2 in self.ev(t.value, s, fr):
                        if v.__class__ is Exc:
                            out.append(('exc', v, s2))
                            continue
                        if t.attr in self.watch_attrs:
                            self.event(s2, Event('setattr', t.attr, v, (K('\0deleted'),), {}, t, s2.locks, None,
                                                 fr.fn))
                        if isinstance(v, Ref) and isinstance(s2.heap[v.oid], HInst):
                            o = s2.heap[v.oid]
                            a = dict(o.attrs)
                            a.pop(t.attr, None)
                            s2.heap[v.oid] = HInst(o.cls, a)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            states = nxt
        return out + [(None, None, s) for s in states]

    def s_If(self, n, st, fr):
        out = []
        for v, s in self.ev(n.test, st, fr):
            if v.__class__ is Exc:
                out.append(('exc', v, s))
                continue
            for t, s2 in self.truth(v, s, fr):
                out.extend(self.block(n.body if t else n.orelse, s2, fr))
        return out

    def s_Assert(self, n, st, fr):
        out = []
        for v, s in self.ev(n.test, st, fr):
            if v.__class__ is Exc:
                out.append(('exc', v, s))
                continue
            for t, s2 in self.truth(v, s, fr):
                if t:
                    out.append((None, None, s2))
                elif n.msg is None:
                    out.append(('exc', self.exc('AssertionError', '', n), s2))
                else:
                    for m, s3 in self.ev(n.msg, s2, fr):
                        out.append(('exc', m if m.__class__ is Exc else Exc(T('exc', (K('AssertionError'), self.freeze(m, s3))), n), s3))
        return out

    def s_For(self, n, st, fr):
        out = []
        for it, s in self.ev(n.iter, st, fr):
            if it.__class__ is Exc:
                out.append(('exc', it, s))
                continue

            def body(e, s1):
                r = []
                for k, v, s2 in self.assign(n.target, e, s1, fr):
                    r.extend([(k, v, s2)] if k is not None else self.block(n.body, s2, fr))
                return r
            orelse = (lambda s1: self.block(n.orelse, s1, fr)) if n.orelse else None
            out.extend(self.iterate(it, s, body, fr, orelse))
        return out

    s_AsyncFor = s_For

    def s_While(self, n, st, fr):
        out, broke, exits = [], [], []
        frontier = [st]
        base, mark, seen, rnd = None, None, None, 0
        abstract = False
        const = isinstance(n.test, ast.Constant)
        while frontier:
            rnd += 1
            new = []
            for s in frontier:
                facts0 = set(s.facts)
                tests = self.ev(n.test, s, fr)
                if not abstract and len(tests) > 1 and {v.v for v, _ in tests if isinstance(v, K)} >= {True, False}:
                    abstract = True
                for v, s1 in tests:
                    if v.__class__ is Exc:
                        out.append(('exc', v, s1))
                        continue
                    br = self.truth(v, s1, fr)
                    if not abstract and (len(br) > 1 or rnd > 150):
                        abstract = True
                    for t, s2 in br:
                        if not t:
                            exits.append(s2)
                            continue
                        if abstract and base is None:
                            base, mark, seen = dict(s2.heap), s2.nid, set()
                        if abstract and (not s2.loops or s2.loops[-1] != mark):
                            s2.loops = s2.loops + (mark,)
                        prev = s2.copy()
                        for k, x, s3 in self.block(n.body, s2, fr):
                            if k in (None, 'cnt'):
                                if const and not abstract and set(s3.facts) - facts0:
                                    abstract = True
                                    base, mark, seen = dict(prev.heap), prev.nid, set()
                                if abstract and base is not None:
                                    if rnd >= 2:
                                        self.widen(prev, s3, mark)
                                    # conditions tested on this round say nothing about the next
                                    s3.facts = {f: b for f, b in s3.facts.items() if f in facts0}
                                    c = self.canon(s3, base, mark)
                                    if c in seen:
                                        continue
                                    seen.add(c)
                                new.append(s3)
                                if const and fr.yields is not None and rnd <= 2:
                                    # the consumer of an endless generator stops taking values at some point
                                    out.append(('ret', NONE, s3.copy()))
                            elif k == 'brk':
                                broke.append(s3)
                            else:
                                out.append((k, x, s3))
            frontier = new
            if abstract and rnd > 12 and len(seen or ()) > 400:
                self.imprecise.add('loop-not-converged ' + loc(n))
                break
            if rnd > 800:
                raise AnalysisError('while loop at ' + loc(n))
        res = []
        for s in exits:
            if mark is not None and s.loops and s.loops[-1] == mark:
                s.loops = s.loops[:-1]
            res.extend(self.block(n.orelse, s, fr) if n.orelse else [(None, None, s)])
        for s in broke + [o[2] for o in out]:
            if mark is not None and s.loops and s.loops[-1] == mark:
                s.loops = s.loops[:-1]
        return out + res + [(None, None, s) for s in broke]

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            cur = getattr(fr, 'caller', None)
            x = None
            e = st.heap[fr.env].vars.get('\0exc') if fr.env is not None else None
            return [('exc', Exc(e if e is not None else T('exc', (K('Exception'),)), n), st)]
        out = []
        for v, s in self.ev(n.exc, st, fr):
            if v.__class__ is Exc:
                out.append(('exc', v, s))
                continue
            if isinstance(v, Ref) and isinstance(s.heap[v.oid], HCls):
                for v2, s2 in self.instantiate(v, [], {}, s, n, fr):
                    out.append(('exc', v2 if v2.__class__ is Exc else Exc(v2, n), s2))
            elif isinstance(v, Ext):
                out.append(('exc', Exc(T('exc', (K(v.name.replace('builtins.', '')),)), n), s))
            else:
                out.append(('exc', Exc(v, n), s))
        return out

    def exc_match(self, x, types, st):
        """does exception value x match the handler class(es)? True/False/None"""
        if types is None:
            return True
        if isinstance(types, Tup):
            rs = [self.exc_match(x, t, st) for t in types.items]
            return True if True in rs else (None if None in rs else False)
        if isinstance(types, Ext):
            tn = types.name.replace('builtins.', '')
            tc = getattr(_b, tn, None)
            if tn in ('Exception', 'BaseException'):
                return True
            if isinstance(x, T) and x.op == 'exc':
                xc = getattr(_b, x.args[0].v, None)
                if isinstance(xc, type) and isinstance(tc, type):
                    return issubclass(xc, tc)
                if x.args[0].v == types.name or x.args[0].v == tn:
                    return True
                if isinstance(xc, type):
                    return False
                return False if x.args[0].v != '?' and not isinstance(tc, type) else None
            if isinstance(x, T) and x.op == 'call':
                if x.args[0].v == types.name:
                    return True
                xc = getattr(_b, x.args[0].v.replace('builtins.', ''), None)
                if isinstance(xc, type) and isinstance(tc, type):
                    return issubclass(xc, tc)
                if isinstance(xc, type):
                    return False
                return None
            if isinstance(x, Ref):
                o = st.heap.get(x.oid)
                if isinstance(o, HInst):
                    if types in self.mro(o.cls, st):
                        return True
                    for b in self.mro(o.cls, st):
                        if isinstance(b, Ext) and isinstance(tc, type):
                            bc = getattr(_b, b.name.replace('builtins.', ''), None)
                            if isinstance(bc, type) and issubclass(bc, tc):
                                return True
                    return False
            return None
        if isinstance(types, Ref):
            if isinstance(x, Ref) and isinstance(st.heap.get(x.oid), HInst):
                return types in self.mro(st.heap[x.oid].cls, st)
            return False if isinstance(x, T) and x.op == 'exc' and x.args[0].v != '?' else None
        return None

    def s_Try(self, n, st, fr):
        res = []
        for k, v, s in self.block(n.body, st, fr):
            if k != 'exc':
                if k is None and n.orelse:
                    res.extend(self.block(n.orelse, s, fr))
                else:
                    res.append((k, v, s))
                continue
            pend = [s]
            for h in n.handlers:
                nxt = []
                for s1 in pend:
                    if h.type is None:
                        ts = [(None, s1)]
                    else:
                        ts = self.ev(h.type, s1, fr)
                    for t, s2 in ts:
                        if isinstance(t, Exc):
                            res.append(('exc', t, s2))
                            continue
                        m = self.exc_match(v.val, t, s2)
                        if m is False:
                            nxt.append(s2)
                            continue
                        if m is None:
                            nxt.append(s2.copy())
                        self.excepts += 1
                        if h.name:
                            self.assign_name(h.name, v.val, s2, fr)
                        if fr.env is not None:
                            old = s2.heap[fr.env].vars.get('\0exc')
                            self.assign_name('\0exc', v.val, s2, fr)
                        self.event(s2, Event('except', '', NONE, (v.val,), {}, h, s2.locks, None, fr.fn))
                        res.extend(self.block(h.body, s2, fr))
                pend = nxt
            res.extend(('exc', v, s1) for s1 in pend)
        if n.finalbody:
            out = []
            for k, v, s in res:
                for k2, v2, s2 in self.block(n.finalbody, s, fr):
                    out.append((k, v, s2) if k2 is None else (k2, v2, s2))
            return out
        return res

    s_TryStar = s_Try

    def s_With(self, n, st, fr):
        def go(i, s):
            if i == len(n.items):
                return self.block(n.body, s, fr)
            it = n.items[i]
            out = []
            for v, s1 in self.ev(it.context_expr, s, fr):
                if v.__class__ is Exc:
                    out.append(('exc', v, s1))
                    continue
                inst = isinstance(v, Ref) and isinstance(s1.heap[v.oid], HInst)
                ent = self.cls_lookup(s1.heap[v.oid].cls, '__enter__', s1) if inst else None
                if isinstance(ent, Fn):
                    for ev, s2 in self.call(BM(ent, v), [], {}, s1, n, fr):
                        if ev.__class__ is Exc:
                            out.append(('exc', ev, s2))
                            continue
                        a = self.assign(it.optional_vars, ev, s2, fr) if it.optional_vars else [(None, None, s2)]
                        for k, x, s3 in a:
                            if k is not None:
                                out.append((k, x, s3))
                                continue
                            for k2, x2, s4 in go(i + 1, s3):
                                ex = self.cls_lookup(s4.heap[v.oid].cls, '__exit__', s4)
                                eargs = [T('exctype'), x2.val, T('tb')] if k2 == 'exc' else [NONE, NONE, NONE]
                                for r, s5 in self.call(BM(ex, v), eargs, {}, s4, n, fr):
                                    if r.__class__ is Exc:
                                        out.append(('exc', r, s5))
                                    elif k2 == 'exc':
                                        for t, s6 in self.truth(r, s5, fr):
                                            out.append((None, None, s6) if t else (k2, x2, s6))
                                    else:
                                        out.append((k2, x2, s5))
                    continue
                if isinstance(v, Ref) and isinstance(s1.heap[v.oid], HList) and self.is_cm(it.context_expr, s1, fr):
                    pass
                self.event(s1, Event('enter', '', v, (), {}, n, s1.locks, None, fr.fn))
                s1.locks = s1.locks + (v,)
                val = v
                if isinstance(v, T) and v.op == 'call':
                    val = v
                a = self.assign(it.optional_vars, val, s1, fr) if it.optional_vars else [(None, None, s1)]
                for k, x, s3 in a:
                    for k2, x2, s4 in (go(i + 1, s3) if k is None else [(k, x, s3)]):
                        if v in s4.locks:
                            j = len(s4.locks) - 1 - s4.locks[::-1].index(v)
                            s4.locks = s4.locks[:j] + s4.locks[j + 1:]
                        self.event(s4, Event('exit', '', v, (), {}, n, s4.locks, None, fr.fn))
                        out.append((k2, x2, s4))
            return out
        # generator based context managers: run the generator with the body at its yield
        if len(n.items) == 1 and isinstance(n.items[0].context_expr, ast.Call):
            r = self.with_generator(n, st, fr)
            if r is not None:
                return r
        return go(0, st)

    s_AsyncWith = s_With

    def is_cm(self, expr, st, fr):
        return False

    def with_generator(self, n, st, fr):
        c = n.items[0].context_expr
        probe = st.copy()
        fs = self.ev(c.func, probe, fr)
        if len(fs) != 1 or isinstance(fs[0][0], Exc):
            return None
        f = fs[0][0]
        fn = f.fn if isinstance(f, BM) else f
        if not (isinstance(fn, Fn) and not isinstance(fn.node, ast.Lambda) and
                any('contextmanager' in ast.dump(d) for d in fn.node.decorator_list)):
            return None
        out = []
        for args, s in self.evs(c.args, probe, fr):
            if args.__class__ is Exc:
                out.append(('exc', args, s))
                continue
            kws = self.evs([k.value for k in c.keywords], s, fr)
            for kv, s1 in kws:
                if kv.__class__ is Exc:
                    out.append(('exc', kv, s1))
                    continue
                kw = {k.arg: v for k, v in zip(c.keywords, kv)}
                a = ([f.self] if isinstance(f, BM) else []) + list(args)
                b = self.bind_args(fn, a, kw, s1, n)
                if isinstance(b, Exc):
                    out.append(('exc', b, s1))
                    continue
                env = s1.alloc(HEnv(b, fn.env, fn.mod))
                f2 = Frame(env.oid, fn.mod, fn)
                f2.yields = s1.list()
                pending = {}

                def hook(v, s2):
                    rs = []
                    o = self.assign(n.items[0].optional_vars, v, s2, fr) if n.items[0].optional_vars else \
                        [(None, None, s2)]
                    for k, x, s3 in o:
                        for k2, x2, s4 in (self.block(n.body, s3, fr) if k is None else [(k, x, s3)]):
                            if k2 == 'exc':
                                rs.append((x2, s4))
                            else:
                                s4.tags['\0with%d' % env.oid] = (k2, x2)
                                rs.append((NONE, s4))
                    return rs
                f2.hook = hook
                for k, v, s2 in self.block(fn.node.body, s1, f2):
                    if k == 'exc':
                        out.append((k, v, s2))
                    else:
                        k2, x2 = s2.tags.pop('\0with%d' % env.oid, (None, None))
                        out.append((k2, x2, s2))
        return out

    def s_Import(self, n, st, fr):
        states, out = [st], []
        for a in n.names:
            nxt = []
            for s in states:
                for v, s2 in self.import_module(a.name, s):
                    if v.__class__ is Exc:
                        out.append(('exc', v, s2))
                        continue
                    if a.asname:
                        self.assign_name(a.asname, v, s2, fr)
                    else:
                        top = a.name.split('.')[0]
                        tv = self.import_module(top, s2)[0][0] if top != a.name else v
                        self.assign_name(top, tv, s2, fr)
                    nxt.append(s2)
            states = nxt
        return out + [(None, None, s) for s in states]

    def s_ImportFrom(self, n, st, fr):
        m = self.p.modules.get(st.heap[fr.mod].name)
        name = self.p.resolve_from(m, n) if m else n.module
        out = []
        if name == '__future__':
            return [(None, None, st)]
        for v, s in self.import_module(name, st):
            if v.__class__ is Exc:
                out.append(('exc', v, s))
                continue
            states = [s]
            for a in n.names:
                nxt = []
                for s1 in states:
                    if a.name == '*':
                        if isinstance(v, Ref):
                            for k, x in list(s1.heap[v.oid].ns.items()):
                                if not k.startswith('_'):
                                    self.assign_name(k, x, s1, fr)
                        elif isinstance(v, Ext):
                            old = s1.heap[fr.mod].ns.get('\0star', Tup())
                            self.assign_name('\0star', Tup((K(v.name),) + old.items), s1, fr)
                        nxt.append(s1)
                        continue
                    if isinstance(v, Ref):
                        ns = s1.heap[v.oid].ns
                        if a.name in ns:
                            rs = [(ns[a.name], s1)]
                        elif self.p.has(name + '.' + a.name) or self.p.is_namespace(name + '.' + a.name):
                            rs = self.import_module(name + '.' + a.name, s1)
                        else:
                            rs = [(self.exc('ImportError', name + '.' + a.name, n), s1)]
                    else:
                        rs = [(Ext(name + '.' + a.name), s1)]
                        if self.p.has(name + '.' + a.name) and not self.is_opaque(name + '.' + a.name):
                            rs = self.import_module(name + '.' + a.name, s1)
                    for x, s2 in rs:
                        if x.__class__ is Exc:
                            out.append(('exc', x, s2))
                        else:
                            self.assign_name(a.asname or a.name, x, s2, fr)
                            nxt.append(s2)
                states = nxt
            out.extend((None, None, s1) for s1 in states)
        return out

    def s_Match(self, n, st, fr):
        out = []
        for v, s in self.ev(n.subject, st, fr):
            if v.__class__ is Exc:
                out.append(('exc', v, s))
                continue
            cur = [s]
            for c in n.cases:
                nxt = []
                for s1 in cur:
                    for t, s2 in self.pattern(c.pattern, v, s1, fr):
                        if not t:
                            nxt.append(s2)
                            continue
                        if c.guard is None:
                            out.extend(self.block(c.body, s2, fr))
                            continue
                        for g, s3 in self.ev(c.guard, s2, fr):
                            if g.__class__ is Exc:
                                out.append(('exc', g, s3))
                                continue
                            for t2, s4 in self.truth(g, s3, fr):
                                if t2:
                                    out.extend(self.block(c.body, s4, fr))
                                else:
                                    nxt.append(s4)
                cur = nxt
            out.extend((None, None, s1) for s1 in cur)
        return out

    def pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            out = []
            for x, s in self.ev(p.value, st, fr):
                for r, s2 in self.compare(ast.Eq(), v, x, s, p, fr):
                    out.extend(self.truth(r, s2, fr))
            return out
        if isinstance(p, ast.MatchSingleton):
            return [(t, s) for r, s1 in self.compare(ast.Is(), v, K(p.value), st, p, fr)
                    for t, s in self.truth(r, s1, fr)]
        if isinstance(p, ast.MatchOr):
            out, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for t, s2 in self.pattern(q, v, s, fr):
                        (out if t else nxt).append((t, s2) if t else s2)
                cur = nxt
            return out + [(False, s) for s in cur]
        if isinstance(p, ast.MatchAs):
            rs = [(True, st)] if p.pattern is None else self.pattern(p.pattern, v, st, fr)
            if p.name:
                for t, s in rs:
                    if t:
                        self.assign_name(p.name, v, s, fr)
            return rs
        if isinstance(p, ast.MatchClass) and not p.kwd_attrs:
            out = []
            for c, s in self.ev(p.cls, st, fr):
                for r, s2 in self.isinstance(v, c, s):
                    if r and p.patterns:
                        out.extend(self.pattern(p.patterns[0], v, s2, fr))
                    else:
                        out.append((r, s2))
            return out
        if isinstance(p, ast.MatchMapping) and isinstance(v, Ref) and isinstance(st.heap[v.oid], HDict):
            o = st.heap[v.oid]
            cur = [(True, st)]
            for kn, q in zip(p.keys, p.patterns):
                nxt = []
                for t, s in cur:
                    if not t:
                        nxt.append((t, s))
                        continue
                    kv = self.ev(kn, s, fr)[0][0]
                    if kv in o.items:
                        nxt.extend(self.pattern(q, o.items[kv], s, fr))
                    else:
                        nxt.append((False, s))
                cur = nxt
            if p.rest:
                for t, s in cur:
                    self.assign_name(p.rest, v, s, fr)
            return cur
        if isinstance(p, ast.MatchSequence):
            items, tail = self.iter_of(v, st)
            if self.kind(v, st) in ('list', 'tuple') and not tail:
                star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
                if not star and len(items) != len(p.patterns):
                    return [(False, st)]
                cur = [(True, st)]
                if not star:
                    for q, x in zip(p.patterns, items):
                        cur = [r for t, s in cur for r in (self.pattern(q, x, s, fr) if t else [(t, s)])]
                    return cur
            elif self.kind(v, st) not in (None, 'list', 'tuple'):
                return [(False, st)]
        self.imprecise.add('pattern')
        return self.fact(('pattern', K(id(p)), self.freeze(v, st)), st)

    # ---------------------------------------------------------------- isinstance
    def isinstance(self, v, t, st):
        """-> [(bool, st)]"""
        if isinstance(t, Tup) or (isinstance(t, K) and isinstance(t.v, tuple)):
            out, cur = [], [st]
            for x in t.items:
                nxt = []
                for s in cur:
                    for r, s2 in self.isinstance(v, x, s):
                        if r:
                            out.append((True, s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(False, s) for s in cur]
        if isinstance(t, T) and t.op == '|':
            return self.isinstance(v, Tup(t.args), st)
        if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), HInst):
            m = self.mro(st.heap[v.oid].cls, st)
            if t in m or isinstance(t, Ext) and t.name == 'builtins.object':
                return [(True, st)]
            if isinstance(t, Ref):
                return [(False, st)]
            if any(isinstance(b, (Ext, T)) for b in m):
                if isinstance(t, Ext) and t.name.startswith('builtins.'):
                    tc = getattr(_b, t.name[9:], None)
                    for b in m:
                        bc = getattr(_b, getattr(b, 'name', '')[9:], None) if isinstance(b, Ext) else None
                        if isinstance(bc, type) and isinstance(tc, type) and issubclass(bc, tc):
                            return [(True, st)]
                return [(False, st)]
            return [(False, st)]
        if isinstance(t, Ref):
            if self.kind(v, st) is not None:
                return [(False, st)]
            return self.fact(('isinstance', v, t), st)
        if isinstance(t, Ext):
            tn = t.name.replace('builtins.', '').replace('collections.abc.', '').replace('typing.', '')
            tn = {'six.string_types': 'str', 'six.text_type': 'str', 'numbers.Number': 'int', 'Dict': 'dict',
                  'List': 'list', 'Mapping': 'dict'}.get(tn, tn)
            k = self.kind(v, st)
            if k is not None:
                if tn == 'object':
                    return [(True, st)]
                if tn == k or (tn == 'int' and k == 'bool') or (tn in ('Iterable', 'Sequence') and k in (
                        'list', 'tuple', 'str', 'set', 'dict')):
                    return [(True, st)]
                return [(False, st)]
            if isinstance(v, T) and v.op == 'call' and v.args[0].v == t.name:
                return [(True, st)]
            basic = ('str', 'int', 'float', 'bool', 'dict', 'list', 'tuple', 'set', 'bytes')
            key = ('isinstance', v, t)
            if key in st.facts:
                return [(st.facts[key], st)]
            rs = self.fact(key, st)
            for r, s in rs:
                if r and tn in basic:
                    s.facts[('kind', v)] = tn
            return rs
        return self.fact(('isinstance', v, t), st)

    # ---------------------------------------------------------------- builtins
    def deepcopy(self, v, st, memo, depth=99):
        if isinstance(v, Ref):
            if v.oid in memo:
                return memo[v.oid]
            o = st.heap[v.oid]
            if isinstance(o, (HMod, HCls, HEnv)):
                return v
            r = st.alloc(o)
            memo[v.oid] = r
            if depth <= 0:
                return r
            c = lambda x: self.deepcopy(x, st, memo, depth - 1)
            if isinstance(o, HList):
                st.heap[r.oid] = HList(o.kind, [c(x) for x in o.items], {c(x) for x in o.tail})
            elif isinstance(o, HDict):
                st.heap[r.oid] = HDict({k: c(x) for k, x in o.items.items()}, {(k, c(x)) for k, x in o.rest}, o.factory)
            elif isinstance(o, HInst):
                st.heap[r.oid] = HInst(o.cls, {k: c(x) for k, x in o.attrs.items()})
            return r
        if isinstance(v, Tup):
            return Tup([self.deepcopy(x, st, memo, depth - 1) for x in v.items])
        return v

    def fold(self, seq, st, f):
        """sequentially map f(value, st) -> results over exact values; -> [(tuple, st)]"""
        acc = [((), st)]
        for x in seq:
            nxt = []
            for vs, s in acc:
                if vs.__class__ is Exc:
                    nxt.append((vs, s))
                    continue
                for v, s2 in f(x, s):
                    nxt.append((v, s2) if v.__class__ is Exc else (vs + (v,), s2))
            acc = nxt
        return acc

    def map_iter(self, it, st, f, kind='list', keep=False):
        """list of f(x) for x in it -> [(ref, st)]; keep: filter semantics"""
        res = st.list((), (), kind)

        def body(e, s):
            out = []
            for v, s2 in f(e, s):
                if v.__class__ is Exc:
                    out.append(('exc', v, s2))
                elif keep:
                    for t, s3 in self.truth(v, s2):
                        if t:
                            self.append(res, e, s3)
                        out.append((None, None, s3))
                else:
                    self.append(res, v, s2)
                    out.append((None, None, s2))
            return out
        return [(v, s) if k == 'exc' else (res, s) for k, v, s in self.iterate(it, st, body, None)]

    def has_method(self, v, name, st):
        o = st.heap.get(v.oid) if isinstance(v, Ref) else None
        return isinstance(o, HInst) and isinstance(self.cls_lookup(o.cls, name, st), Fn)

    def insertion_sort(self, items, reverse, st, node, fr):
        """stable sort by the comparison the items define"""
        cur = [((), st)]
        for x in (items[::-1] if reverse else items):
            nxt = []
            for done, s in cur:
                # x goes behind the last element that is not greater than it
                todo = [(len(done), s)]
                while todo:
                    i, s1 = todo.pop()
                    if i == 0:
                        nxt.append(((x,) + done, s1))
                        continue
                    for v, s2 in self.compare(ast.Lt(), x, done[i - 1], s1, node, fr):
                        if v.__class__ is Exc:
                            return [(v, s2)]
                        for t, s3 in self.truth(v, s2, fr):
                            if t:
                                todo.append((i - 1, s3))
                            else:
                                nxt.append((done[:i] + (x,) + done[i:], s3))
            cur = nxt
        return [(s.list(d[::-1] if reverse else d), s) for d, s in cur]

    def call_builtin(self, name, args, kw, st, node, fr):
        if not name.startswith('builtins.'):
            return self.call_stdlib(name, args, kw, st, node, fr)
        n = name[9:]
        if any(isinstance(a, Star) for a in args) and n not in ('zip', 'print', 'max', 'min'):
            return None
        a0 = args[0] if args else None
        if n == 'isinstance' and len(args) == 2:
            return [(K(r), s) for r, s in self.isinstance(args[0], args[1], st)]
        if n == 'issubclass':
            if isinstance(a0, Ref):
                return [(K(args[1] in self.mro(a0, st)), st)]
            return None
        if n == 'super':
            if len(args) == 2:
                return [(Super(args[0], args[1]), st)]
            return None
        if n == 'type':
            if len(args) != 1:
                return None
            if isinstance(a0, Ref) and isinstance(st.heap[a0.oid], HInst):
                return [(st.heap[a0.oid].cls, st)]
            if a0 == NONE:
                return [(Ext('builtins.NoneType'), st)]
            k = self.kind(a0, st)
            if k and hasattr(_b, k):
                return [(Ext('builtins.' + k), st)]
            return [(T('type', (a0,)), st)]
        if n == 'print':
            self.event(st, Event('call', 'builtins.print', NONE, [self.freeze(a, st) for a in args], {}, node,
                                 st.locks, None, fr and fr.fn))
            return [(NONE, st)]
        if n == 'len':
            if isinstance(a0, Ref) and a0.oid in self.growing:
                return [(T('len', (K('shared'), K(a0.oid)), 'int'), st)]
            if isinstance(a0, Tup):
                return [(K(len(a0.items)), st)]
            if isinstance(a0, Ref):
                o = st.heap[a0.oid]
                if isinstance(o, HList) and not o.tail:
                    return [(K(len(o.items)), st)]
                if isinstance(o, HDict) and not o.rest:
                    return [(K(len(o.items)), st)]
                if isinstance(o, HInst):
                    m = self.cls_lookup(o.cls, '__len__', st)
                    if isinstance(m, Fn):
                        return self.call(BM(m, a0), [], {}, st, node, fr)
            if isinstance(a0, K):
                try:
                    return [(K(len(a0.v)), st)]
                except Exception as e:
                    return [(self.exc('TypeError', e, node), st)]
            if self.kind(a0, st) in ('int', 'float', 'NoneType'):
                return [(self.exc('TypeError', 'len', node), st)]
            if isinstance(a0, T) and a0.op == 'chars':
                return [(K(len(a0.args)), st)]
            if isinstance(a0, T) and a0.op == 'list' and not any(isinstance(x, T) and x.op == 'many' for x in a0.args):
                return [(K(len(a0.args)), st)]
            return [(T('len', (self.freeze(a0, st),), 'int'), st)]
        if n in ('str', 'repr'):
            if not args:
                return [(K(''), st)]
            if isinstance(a0, Ref) and isinstance(st.heap[a0.oid], HInst):
                m = self.cls_lookup(st.heap[a0.oid].cls, '__str__' if n == 'str' else '__repr__', st) or \
                    self.cls_lookup(st.heap[a0.oid].cls, '__repr__', st)
                if isinstance(m, Fn):
                    return self.call(BM(m, a0), [], {}, st, node, fr)
            if len(args) > 1:
                return [(T('str', (self.freeze(a0, st),), 'str'), st)]
            return [(self.tostr(a0, st, n), st)]
        if n in ('int', 'float', 'abs', 'round', 'bool', 'ord', 'chr', 'hex', 'bytes', 'complex', 'bin', 'pow',
                 'divmod', 'hash', 'ascii', 'oct'):
            if n == 'bool':
                if not args:
                    return [(FALSE, st)]
                return [(K(t), s) for t, s in self.truth(a0, st, fr)]
            if all(isinstance(a, K) for a in args) and not kw and n != 'hash':
                try:
                    r = getattr(_b, n)(*[a.v for a in args])
                    return [(Tup([K(x) for x in r]) if isinstance(r, tuple) else K(r), st)]
                except Exception as e:
                    return [(self.exc(type(e).__name__, e, node), st)]
            ka = self.kind(a0, st)
            if n == 'int' and ka in ('int', 'bool'):
                return [(a0, st)]
            if n == 'float' and ka == 'float':
                return [(a0, st)]
            if n in ('int', 'float') and ka in ('dict', 'list', 'NoneType', 'tuple'):
                return [(self.exc('TypeError', n, node), st)]
            kind = {'int': 'int', 'float': 'float', 'ord': 'int', 'chr': 'str', 'hex': 'str', 'bytes': 'bytes'}.get(n, ka)
            return [(T(n, [self.freeze(a, st) for a in args], kind), st)]
        if n in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter'):
            if not args:
                return [(Tup() if n == 'tuple' else st.list((), (), 'set' if 'set' in n else 'list'), st)]
            if isinstance(a0, Ref) and isinstance(st.heap[a0.oid], HInst):
                return self.map_iter(a0, st, lambda v, s: [(v, s)])
            if n == 'iter' and len(args) == 1:
                o = st.heap[a0.oid] if isinstance(a0, Ref) else None
                if isinstance(o, HInst):
                    m = self.cls_lookup(o.cls, '__iter__', st)
                    if isinstance(m, Fn):
                        return self.call(BM(m, a0), [], {}, st, node, fr)
                if isinstance(o, HList) and o.kind != 'iter' or isinstance(o, HDict) or isinstance(a0, Tup) or \
                        isinstance(a0, K) and isinstance(a0.v, (str, bytes, tuple, frozenset, range)):
                    items, tail = self.iter_of(a0, st)
                    return [(st.list(items, tail, 'iter'), st)]
                return [(a0, st)]
            if n == 'iter':
                return None
            if isinstance(a0, K) and not isinstance(a0.v, (str, bytes, tuple, frozenset, range)):
                return [(self.exc('TypeError', 'not iterable', node), st)]
            items, tail = self.iter_of(a0, st)
            if n == 'reversed':
                if tail:
                    return [(st.list((), set(items) | set(tail)), st)]
                return [(st.list(items[::-1]), st)]
            if n == 'sorted':
                key = kw.get('key')
                rev = kw.get('reverse', FALSE)
                if not tail and isinstance(rev, K):
                    if key is None or key == NONE:
                        cs = [self.constpy(self.freeze(i, st)) for i in items]
                        if None in cs and all(isinstance(i, Tup) and i.items and isinstance(i.items[0], K) for i in items) \
                                and len({i.items[0] for i in items}) == len(items):
                            cs = [(i.items[0].v,) for i in items]
                        if None not in cs:
                            try:
                                idx = sorted(range(len(items)), key=lambda i: cs[i][0], reverse=bool(rev.v))
                                return [(st.list([items[i] for i in idx]), st)]
                            except Exception as e:
                                return [(self.exc(type(e).__name__, e, node), st)]
                        if len(items) <= 1:
                            return [(st.list(items), st)]
                        if len(items) <= 6 and any(self.has_method(i, '__lt__', st) for i in items):
                            return self.insertion_sort(items, bool(rev.v), st, node, fr)
                    else:
                        def fin(vs, s):
                            if all(self.constpy(self.freeze(v, s)) is not None for v in vs):
                                try:
                                    idx = sorted(range(len(items)), key=lambda i: self.constpy(self.freeze(vs[i], s))[0],
                                                 reverse=bool(rev.v))
                                    return [(s.list([items[i] for i in idx]), s)]
                                except Exception as e:
                                    return [(self.exc(type(e).__name__, e, node), s)]
                            return [(s.list((), items), s)]
                        out = []
                        for vs, s in self.fold(items, st, lambda x, s: self.call(key, [x], {}, s, node, fr)):
                            out.extend([(vs, s)] if vs.__class__ is Exc else fin(vs, s))
                        return out
                return [(st.list((), set(items) | set(tail)), st)]
            if n == 'tuple':
                if tail:
                    return [(st.list(items, tail), st)]
                return [(Tup(items), st)]
            if n in ('set', 'frozenset'):
                return [(st.list(list(dict.fromkeys(items)), tail, 'set'), st)]
            return [(st.list(items, tail), st)]
        if n == 'dict' and args and isinstance(a0, Ref) and isinstance(st.heap[a0.oid], HInst):
            keys, get = [self.cls_lookup(st.heap[a0.oid].cls, m, st) for m in ('keys', '__getitem__')]
            if isinstance(keys, Fn) and isinstance(get, Fn):
                out = []
                for ks, s in self.call(BM(keys, a0), [], {}, st, node, fr):
                    if ks.__class__ is Exc:
                        out.append((ks, s))
                        continue
                    items, tail = self.iter_of(ks, s)
                    cur = [({}, s)]
                    for k in items:
                        nxt = []
                        for d, s1 in cur:
                            for v, s2 in self.call(BM(get, a0), [k], {}, s1, node, fr):
                                if v.__class__ is Exc:
                                    out.append((v, s2))
                                else:
                                    nxt.append(({**d, k: v}, s2))
                        cur = nxt
                    rest = {(k, T('item', (self.freeze(a0, s), k))) for k in tail}
                    for d, s1 in cur:
                        nd = s1.alloc(HDict(d, rest))
                        out.extend(self.call_builtin('builtins.dict', [nd], kw, s1, node, fr) if kw else [(nd, s1)])
                return out
        if n == 'dict':
            d, rest = {}, set()
            if args:
                o = st.heap[a0.oid] if isinstance(a0, Ref) else None
                if isinstance(o, HDict):
                    d, rest = dict(o.items), set(o.rest)
                else:
                    items, tail = self.iter_of(a0, st)
                    for p in items:
                        pi, pt = self.iter_of(p, st)
                        if len(pi) == 2:
                            d[pi[0]] = pi[1]
                        else:
                            rest.add((T('item', (p, K(0))), T('item', (p, K(1)))))
                    for p in tail:
                        if isinstance(p, Tup) and len(p.items) == 2:
                            rest.add((p.items[0], p.items[1]))
                        else:
                            rest.add((T('item', (p, K(0))), T('item', (p, K(1)))))
            for k, v in kw.items():
                if k == '**':
                    o = st.heap[v.oid] if isinstance(v, Ref) else None
                    if isinstance(o, HDict):
                        rest |= o.rest
                    else:
                        rest.add((T('elem', (v,)), T('item', (v, T('elem', (v,))))))
                else:
                    d[K(k)] = v
            return [(st.alloc(HDict(d, rest)), st)]
        if n == 'range':
            if all(isinstance(a, K) for a in args):
                r = range(*[a.v for a in args])
                if len(r) <= 300:
                    return [(st.list([K(x) for x in r]), st)]
            return [(T('range', [self.freeze(a, st) for a in args]), st)]
        if n == 'enumerate':
            items, tail = self.iter_of(a0, st)
            start = args[1] if len(args) > 1 else kw.get('start', K(0))
            b = start.v if isinstance(start, K) else 0
            return [(st.list([Tup((K(i + b), x)) for i, x in enumerate(items)],
                             [Tup((T('index', (x,), 'int'), x)) for x in tail]), st)]
        if n == 'zip':
            if any(isinstance(a, Star) for a in args):
                return [(st.list((), {T('elem', (T('zip', [self.freeze(a, st) for a in args]),))}), st)]
            its = [self.iter_of(a, st) for a in args]
            if all(not t for _, t in its):
                m = min((len(i) for i, _ in its), default=0)
                return [(st.list([Tup([i[j] for i, _ in its]) for j in range(m)]), st)]
            m = min(len(i) for i, _ in its)
            exact = [Tup([i[j] for i, _ in its]) for j in range(m)]
            alts = [list(i[m:]) + list(t) for i, t in its]
            tails = set()
            if all(alts):
                import itertools
                for c in itertools.islice(itertools.product(*alts), 64):
                    tails.add(Tup(c))
            return [(st.list(exact, tails), st)]
        if n == 'map':
            if len(args) == 2:
                return self.map_iter(args[1], st, lambda v, s: self.call(args[0], [v], {}, s, node, fr))
            z = self.call_builtin('builtins.zip', args[1:], {}, st, node, fr)
            return bind(z, lambda zz, s: self.map_iter(
                zz, s, lambda v, s2: self.call(args[0], list(v.items) if isinstance(v, Tup) else [v], {}, s2, node, fr)))
        if n == 'filter':
            f = args[0]
            return self.map_iter(args[1], st, (lambda v, s: [(v, s)]) if f == NONE else
                                 (lambda v, s: self.call(f, [v], {}, s, node, fr)), keep=True)
        if n in ('any', 'all'):
            items, tail = self.iter_of(a0, st)
            want = n == 'any'
            cur, out = [st], []
            for x in items + list(tail):
                nxt = []
                for s in cur:
                    for t, s2 in self.truth(x, s, fr):
                        if t == want:
                            out.append((K(want), s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(K(not want), s) for s in cur]
        if n == 'sum':
            items, tail = self.iter_of(a0, st)
            if not tail:
                acc = [(args[1] if len(args) > 1 else K(0), st)]
                for x in items:
                    acc = bind(acc, lambda v, s: self.binop(ast.Add(), v, x, s, node, fr))
                return acc
            return [(T('sum', (self.freeze(a0, st),)), st)]
        if n in ('min', 'max'):
            its = list(args)
            if len(args) == 1:
                i, t = self.iter_of(a0, st)
                its = i if not t else None
            if its and all(isinstance(x, K) for x in its) and not kw:
                try:
                    return [(K(getattr(_b, n)([x.v for x in its])), st)]
                except Exception as e:
                    return [(self.exc(type(e).__name__, e, node), st)]
            return [(T(n, [self.freeze(a, st) for a in args]), st)]
        if n == 'next':
            o = st.heap[a0.oid] if isinstance(a0, Ref) else None
            if isinstance(o, HInst):
                m = self.cls_lookup(o.cls, '__next__', st)
                if isinstance(m, Fn):
                    return self.call(BM(m, a0), [], {}, st, node, fr)
            items, tail = self.iter_of(a0, st)
            if items:
                if isinstance(o, HList) and o.kind == 'iter':
                    if self.in_loop(a0, st):
                        st.heap[a0.oid] = HList(o.kind, (), set(items) | set(tail))
                        return self.alts(items + tail, st)
                    st.heap[a0.oid] = HList(o.kind, items[1:], tail)
                return [(items[0], st)]
            r = self.alts(list(tail), st) if tail else []
            if len(args) > 1:
                r = r + [(args[1], st.copy() if r else st)]
            elif not r:
                return [(self.exc('StopIteration', '', node), st)]
            return r
        if n == 'getattr' and len(args) >= 2:
            if isinstance(args[1], K):
                return self.getattr(a0, args[1].v, st, node, fr, args[2] if len(args) > 2 else None)
            return [(T('getattr', [self.freeze(x, st) for x in args]), st)]
        if n == 'hasattr':
            if isinstance(args[1], K):
                if isinstance(a0, (T, Sym, Ext)) and self.kind(a0, st) is None:
                    return [(K(t), s) for t, s in self.fact(('hasattr', a0, args[1]), st)]
                s0 = st.copy()
                rs = self.getattr(a0, args[1].v, s0, node, fr)
                return [(K(not isinstance(rs[0][0], Exc)), st)]
            return [(K(t), s) for t, s in self.fact(('hasattr', self.freeze(a0, st), self.freeze(args[1], st)), st)]
        if n == 'setattr':
            if isinstance(args[1], K):
                return self.setattr(a0, args[1].v, args[2], st, node, fr)
            self.event(st, Event('setattr', '?', a0, args[1:], {}, node, st.locks, None, fr and fr.fn))
            return [(NONE, st)]
        if n == 'callable':
            return [(K(isinstance(a0, (Fn, BM, Partial, Ext)) or self.kind(a0, st) == 'type'), st)]
        if n == 'id':
            return [(T('id', (a0,), 'int'), st)]
        if n == 'property':
            return [(Prop(args[0], args[1] if len(args) > 1 else None), st)]
        if n == 'staticmethod':
            return [(SM(a0), st)]
        if n == 'classmethod':
            return [(CM(a0), st)]
        if n == 'object' and not args:
            return [(st.alloc(HInst(Ext('builtins.object'))), st)]
        if n == 'object.__new__':
            return [(st.alloc(HInst(args[0])), st)]
        if n in ('vars',) and isinstance(a0, Ref):
            return self.getattr(a0, '__dict__', st, node, fr)
        if n in ('dict.fromkeys',):
            items, tail = self.iter_of(a0, st)
            v = args[1] if len(args) > 1 else NONE
            return [(st.dict({k: v for k in items}, {(k, v) for k in tail}), st)]
        if n in ('str.join', 'str.lower', 'str.upper', 'str.strip', 'list.append', 'dict.get', 'str.format') and args:
            return self.call_method(a0, n.split('.')[1], args[1:], kw, st, node, fr)
        if n == 'bytes.fromhex':
            return [(T('bytes.fromhex', [self.freeze(a, st) for a in args], 'bytes'), st)]
        x = getattr(_b, n, None)
        if isinstance(x, type) and issubclass(x, BaseException):
            return [(T('exc', (K(n), self.freeze(a0, st) if args else K(''))), st)]
        return None

    def call_stdlib(self, name, args, kw, st, node, fr):
        a0 = args[0] if args else None
        if name == 'copy.deepcopy':
            return [(self.deepcopy(a0, st, {}), st)]
        if name == 'copy.copy':
            return [(self.deepcopy(a0, st, {}, 0), st)]
        if name == 'functools.partial':
            return [(Partial(a0, args[1:], tuple(kw.items())), st)]
        if name.startswith('math.') and args and not kw and all(isinstance(a, K) for a in args) \
                and hasattr(math, name[5:]):
            try:
                return [(K(getattr(math, name[5:])(*[a.v for a in args])), st)]
            except Exception as e:
                return [(self.exc(type(e).__name__, e, node), st)]
        if name.startswith('re.') and name[3:] in RE_FN and len(args) >= 2 and set(kw) <= {'flags'}:
            return self.regex(name[3:], a0, args[1:], st, kw.get('flags', K(0)))
        if name == 'functools.wraps':
            return [(Ext('builtins.\0identity'), st)]
        if name == 'builtins.\0identity':
            return [(a0, st)]
        if name == 'functools.reduce':
            items, tail = self.iter_of(args[1], st)
            if not tail:
                acc = [(args[2] if len(args) > 2 else items.pop(0), st)] if (len(args) > 2 or items) else None
                if acc is None:
                    return [(self.exc('TypeError', 'reduce', node), st)]
                for x in items:
                    acc = bind(acc, lambda v, s: self.call(a0, [v, x], {}, s, node, fr))
                return acc
            # one abstract round
            init = args[2] if len(args) > 2 else tail[0]
            return bind(self.call(a0, [T('acc', (init,)), tail[0]], {}, st, node, fr),
                        lambda v, s: [(T('reduce', (self.freeze(v, s), init)), s)])
        if name in ('collections.OrderedDict',):
            return self.call_builtin('builtins.dict', args, kw, st, node, fr)
        if name == 'collections.defaultdict':
            r = self.call_builtin('builtins.dict', args[1:], kw, st, node, fr)
            for v, s in r:
                o = s.heap[v.oid]
                s.heap[v.oid] = HDict(o.items, o.rest, a0 if a0 is not None and a0 != NONE else None)
            return r
        if name == 'collections.deque':
            r = self.call_builtin('builtins.list', args[:1], {}, st, node, fr)
            return r
        if name in ('itertools.chain', 'itertools.chain.from_iterable'):
            src = list(args)
            if name.endswith('iterable'):
                i, t = self.iter_of(a0, st)
                src = i + list(t)
            res = st.list()
            for x in src:
                self.extend(res, x, st)
            return [(res, st)]
        if name == 'itertools.product' and not kw:
            its = [self.iter_of(a, st) for a in args]
            if all(not t for _, t in its):
                import itertools
                return [(st.list([Tup(c) for c in itertools.product(*[i for i, _ in its])]), st)]
        if name == 'itertools.zip_longest':
            its = [self.iter_of(a, st) for a in args]
            if all(not t for _, t in its):
                import itertools
                fill = kw.get('fillvalue', NONE)
                return [(st.list([Tup(c) for c in itertools.zip_longest(*[i for i, _ in its], fillvalue=fill)]), st)]
        if name == 'operator.itemgetter' and len(args) == 1:
            return [(Partial(Ext('operator.\0getitem'), (a0,), ()), st)]
        if name == 'operator.\0getitem':
            return self.getitem(args[1], a0, st, node, fr)
        if name == 'operator.add':
            return self.binop(ast.Add(), args[0], args[1], st, node, fr)
        if name == 'operator.mul':
            return self.binop(ast.Mult(), args[0], args[1], st, node, fr)
        if name == 'operator.attrgetter' and isinstance(a0, K):
            return [(Partial(Ext('operator.\0getattr'), (a0,), ()), st)]
        if name == 'operator.\0getattr':
            return self.getattr(args[1], a0.v, st, node, fr)
        if name == 'sys.exc_info':
            e = None
            return [(Tup([T('exctype'), T('exc', (K('Exception'),)), T('tb')]), st)]
        if name == 'collections.namedtuple' and isinstance(a0, K):
            names = None
            if isinstance(args[1], K):
                names = args[1].v.replace(',', ' ').split()
            else:
                i, t = self.iter_of(args[1], st)
                if not t and all(isinstance(x, K) for x in i):
                    names = [x.v for x in i]
            if names:
                return [(Partial(Ext('collections.\0nt'), (Tup([K(x) for x in names]), a0), ()), st)]
        if name == 'collections.\0nt':
            names = [x.v for x in a0.items]
            vals = list(args[2:])
            attrs = dict(zip(names, vals))
            attrs.update(kw)
            return [(st.alloc(HInst(Ext('namedtuple:' + args[1].v), attrs)), st)]
        if name == 'types.SimpleNamespace':
            return [(st.alloc(HInst(Ext('types.SimpleNamespace'), dict(kw))), st)]
        return None

    def call_stub(self, name, args, kw, st, node, fr):
        """a standard library function with a model in sa/stubs/std"""
        mod, _, fn = name.rpartition('.')
        m = self.p.modules.get('sastd.' + mod)
        if m is None or not any(getattr(x, 'name', None) == fn for x in m.tree.body):
            return None
        out = []
        for v, s in self.import_module(m.name, st):
            f = s.heap[v.oid].ns[fn]
            out.extend(self.call(f, args, kw, s, node, fr))
        return out

    def dict_update(self, ref, args, kw, st):
        o = st.heap[ref.oid]
        d, rest = dict(o.items), set(o.rest)
        for a in args:
            p = st.heap[a.oid] if isinstance(a, Ref) else None
            if isinstance(p, HDict):
                d.update(p.items)
                rest |= p.rest
            else:
                items, tail = self.iter_of(a, st)
                if isinstance(a, (T, Sym)) and not items:
                    fz = self.freeze(a, st)
                    e = T('elem', (fz,))
                    rest.add((e, T('item', (fz, e))))
                    continue
                for x in items:
                    pi, _ = self.iter_of(x, st)
                    if len(pi) == 2:
                        d[pi[0]] = pi[1]
                for x in tail:
                    if isinstance(x, Tup) and len(x.items) == 2:
                        rest.add((x.items[0], x.items[1]))
        for k, v in kw.items():
            d[K(k)] = v
        st.heap[ref.oid] = HDict(d, rest, o.factory)

    def call_method(self, recv, name, args, kw, st, node, fr):
        """methods of builtin values; None if not modelled"""
        if isinstance(recv, Super):
            if name in ('__init__', '__new__', '__setattr__', '__getattribute__', '__init_subclass__'):
                if name == '__new__':
                    return [(st.alloc(HInst(args[0])), st)]
                if name == '__setattr__' and isinstance(args[0], K):
                    o = st.heap[recv.self.oid]
                    a = dict(o.attrs)
                    a[args[0].v] = args[1]
                    st.heap[recv.self.oid] = HInst(o.cls, a)
                if name == '__getattribute__' and isinstance(args[0], K):
                    return self.getattr(recv.self, args[0].v, st, node, fr)
                return [(NONE, st)]
            return None
        if name == '__next__' and not args and not (isinstance(recv, Ref) and isinstance(st.heap.get(recv.oid), HInst)):
            return self.call_builtin('builtins.next', [recv], {}, st, node, fr)
        if isinstance(recv, Ref):
            o = st.heap.get(recv.oid)
            if isinstance(o, HList):
                return self.list_method(recv, o, name, args, kw, st, node, fr)
            if isinstance(o, HDict):
                return self.dict_method(recv, o, name, args, kw, st, node, fr)
            if isinstance(o, HInst):
                if name == '__getattribute__' and isinstance(args[0], K):
                    return self.getattr(recv, args[0].v, st, node, fr)
                if name == '__init__':
                    return [(NONE, st)]
            return None
        if isinstance(recv, Tup):
            if name == 'index' or name == 'count':
                rs = [self.eqv(args[0], x, st) for x in recv.items]
                if None not in rs:
                    if name == 'count':
                        return [(K(rs.count(True)), st)]
                    return [(K(rs.index(True)), st)] if True in rs else [(self.exc('ValueError', '', node), st)]
            return None
        k = self.kind(recv, st)
        if isinstance(recv, T) and recv.op in ('cat', 'digits') and name in DIGIT_SAFE \
                and all(isinstance(a, K) and not (isinstance(a.v, str) and any(c.isdigit() for c in a.v)) for a in args):
            r = self.digit_method(recv, name, args)
            if r is not None:
                return [(lift(r, st), st)]
        if isinstance(recv, T) and recv.op == 'cat' and name in ('strip', 'lstrip', 'rstrip') and not args:
            r = self.strip_cat(list(recv.args), name, st)
            if r is not None:
                return [(r, st)]
        if name == 'join' and k == 'str' and args and isinstance(args[0], Ref) and isinstance(st.heap[args[0].oid], HInst):
            m = self.cls_lookup(st.heap[args[0].oid].cls, '__iter__', st)
            if isinstance(m, Fn):
                out = []
                for v, s in self.call(BM(m, args[0]), [], {}, st, node, None):
                    out.extend([(v, s)] if v.__class__ is Exc else self.join(recv, v, s, node))
                return out
        if isinstance(recv, K) and name == 'join' and isinstance(recv.v, str):
            return self.join(recv, args[0], st, node)
        if name == 'join' and k == 'str' and args:
            return self.join(recv, args[0], st, node)
        if isinstance(recv, K) and name == 'format' and isinstance(recv.v, str):
            return [(self.strformat(recv.v, args, kw, st), st)]
        if isinstance(recv, K) and not any(isinstance(a, Star) for a in args):
            cargs = [self.constpy(self.freeze(a, st)) for a in args]
            ckw = {q: self.constpy(self.freeze(v, st)) for q, v in kw.items()}
            if None not in cargs and None not in ckw.values():
                try:
                    r = getattr(recv.v, name)(*[c[0] for c in cargs], **{q: c[0] for q, c in ckw.items()})
                    return [(lift(r, st), st)]
                except Exception as e:
                    return [(self.exc(type(e).__name__, e, node), st)]
        if isinstance(recv, T) and recv.op == 'call' and recv.args[0] == K('re.compile') and name in RE_FN and args \
                and 1 <= len(recv.args[2].items) <= 2 and not recv.args[3].items and not kw:
            pre, post = ([], args) if name not in ('sub', 'subn') else (args[:1], args[1:])
            r = self.regex(name, recv.args[2].items[0], pre + post, st, (recv.args[2].items[1:] or (K(0),))[0])
            if r is not None:
                return r
        if name == '__getattribute__' or name == '__str__':
            return [(self.tostr(recv, st), st)] if name == '__str__' else None
        if name == 'items' and isinstance(recv, (T, Sym)) and not args:
            return [(T('items', (recv,)), st)]
        if name in ('keys',) and isinstance(recv, (T, Sym)) and not args:
            return [(recv, st)]
        if name == 'get' and k == 'dict' and args:
            return [(T('item', (recv, self.freeze(args[0], st))), st)]
        if k == 'str' and name in ('encode', 'strip') and False:
            return None
        return None

    def strip_cat(self, parts, name, st):
        """strip() of a text whose ends are known (or numbers)"""
        for side, end in (('l', 0), ('r', -1)):
            if name not in ('strip', side + 'strip'):
                continue
            while parts:
                p = parts[end]
                if isinstance(p, K) and isinstance(p.v, str):
                    v = p.v.lstrip() if side == 'l' else p.v.rstrip()
                    if v:
                        parts[end] = K(v)
                        break
                    parts.pop(end)
                elif isinstance(p, T) and p.op == 'str' and self.kind(p.args[0], st) in ('int', 'float', 'bool'):
                    break
                else:
                    return None
        return self.cat(parts) if parts else K('')

    def regex(self, fn, pat, args, st, flags=K(0)):
        """a regular expression over constants"""
        cs = [self.constpy(self.freeze(a, st)) for a in [pat] + list(args)]
        if None in cs or not (isinstance(flags, K) and isinstance(flags.v, int)):
            return None
        try:
            r = getattr(re, fn)(*[c[0] for c in cs], **({'flags': flags.v} if flags.v else {}))
        except Exception:
            return None
        if isinstance(r, re.Match):
            return [(self.match_object(r, st), st)]
        return [(lift(r, st), st)]

    def match_object(self, m, st):
        def method(name):
            def f(I, a, k, s, n, fr):
                if k or not all(isinstance(x, K) for x in a):
                    raise AnalysisError('Match.%s of an unknown group' % name)
                try:
                    return [(lift(getattr(m, name)(*[x.v for x in a]), s), s)]
                except (IndexError, TypeError):
                    return [(Exc(s.alloc(HInst(Ext('builtins.IndexError'), {'args': Tup()})), n), s)]
            # named after what it is, for the same match to be the same value
            nm = 're.match(%r, %d, %r, %d).%s' % (m.re.pattern, m.re.flags, m.string, m.start(), name)
            self.intr[nm] = f
            return Partial(Ext(nm), (), ())
        attrs = {n: method(n) for n in ('span', 'start', 'end', 'group', 'groups', 'groupdict')}
        attrs['string'] = lift(m.string, st)
        return st.alloc(HInst(Ext('re.Match'), attrs))

    def digit_method(self, recv, name, args):
        """a string method that treats a run of decimal digits as one block, on constants and unknown digit runs"""
        atoms, text = [], ''
        for a in (recv.args if recv.op == 'cat' else (recv,)):
            if isinstance(a, K) and isinstance(a.v, str):
                text += a.v
            elif isinstance(a, T) and a.op == 'digits':
                text += chr(0xE000 + len(atoms))
                atoms.append(a)
            else:
                return None
        if not atoms:
            return None
        try:
            r = getattr(text, name)(*[a.v for a in args])
        except Exception:
            return None

        def back(x):
            if not isinstance(x, str):
                return x
            out, lit = [], ''
            for c in x:
                if 0xE000 <= ord(c) < 0xE000 + len(atoms):
                    out += [K(lit)] if lit else []
                    out.append(atoms[ord(c) - 0xE000])
                    lit = ''
                else:
                    lit += c
            out += [K(lit)] if lit or not out else []
            return self.cat(out) if len(out) > 1 else out[0]
        if isinstance(r, (list, tuple)):
            return type(r)([back(x) for x in r])
        return back(r)

    def join(self, sep, it, st, node):
        items, tail = self.iter_of(it, st)
        for x in items:
            kx = self.kind(x, st)
            if kx is not None and kx not in ('str', 'bytes'):
                return [(self.exc('TypeError', 'join of %s' % kx, node), st)]
        if tail:
            return [(T('join', (sep, T('list', [self.freeze(x, st) for x in items] +
                                       [T('many', [self.freeze(x, st) for x in tail])])), 'str'), st)]
        vs = []
        for i, x in enumerate(items):
            if i:
                vs.append(sep)
            vs.append(x)
        if any(isinstance(v, K) and isinstance(v.v, bytes) for v in vs):
            return [(T('join', (sep, T('list', vs)), 'bytes'), st)]
        return [(self.cat(vs), st)]

    def strformat(self, tmpl, args, kw, st):
        import string
        out, auto = [], 0
        if any(isinstance(a, Star) for a in args):
            return T('format', (K(tmpl),) + tuple(self.freeze(a, st) for a in args), 'str')
        for lit, field, spec, conv in string.Formatter().parse(tmpl):
            if lit:
                out.append(K(lit))
            if field is None:
                continue
            import re
            m = re.match(r'^(\w*)(.*)$', field)
            base, rest = m.group(1), m.group(2)
            if base == '':
                v = args[auto] if auto < len(args) else T('missing')
                auto += 1
            elif base.isdigit():
                v = args[int(base)] if int(base) < len(args) else T('missing')
            else:
                v = kw.get(base)
                if v is None:
                    v = T('item', (self.freeze(kw['**'], st), K(base))) if '**' in kw else T('missing')
            for mm in re.finditer(r'\.(\w+)|\[([^\]]+)\]', rest):
                if mm.group(1):
                    v = self.getattr(v, mm.group(1), st, None, None)[0][0]
                else:
                    kk = K(int(mm.group(2))) if mm.group(2).isdigit() else K(mm.group(2))
                    v = self.getitem(v, kk, st, None, None)[0][0]
            v = self.tostr(v, st, 'repr' if conv == 'r' else 'str')
            if spec and not isinstance(v, K):
                v = T('fmt', (v,), 'str')
            out.append(v)
        return self.cat(out)

    def list_method(self, ref, o, name, args, kw, st, node, fr):
        if name in ('append', 'add'):
            self.append(ref, args[0], st)
            return [(NONE, st)]
        if name in ('extend', 'update'):
            for a in args:
                self.extend(ref, a, st)
            return [(NONE, st)]
        if name == 'appendleft' or name == 'insert':
            v = args[-1]
            i = args[0] if name == 'insert' else K(0)
            if isinstance(i, K) and not o.tail and not self.in_loop(ref, st):
                it = list(o.items)
                it.insert(i.v, v)
                st.heap[ref.oid] = HList(o.kind, it)
            elif isinstance(i, K) and i.v == 0 and not self.in_loop(ref, st):
                st.heap[ref.oid] = HList(o.kind, (v,) + o.items, o.tail)
            else:
                st.heap[ref.oid] = HList(o.kind, (), set(o.items) | o.tail | {v})
            return [(NONE, st)]
        if name in ('pop', 'popleft'):
            i = args[0] if args else K(-1 if name == 'pop' else 0)
            if not o.tail and isinstance(i, K) and o.kind != 'set':
                it = list(o.items)
                if not -len(it) <= i.v < len(it):
                    return [(self.exc('IndexError', 'pop', node), st)]
                if self.in_loop(ref, st):
                    st.heap[ref.oid] = HList(o.kind, (), set(it))
                    return self.alts(it, st)
                v = it.pop(i.v)
                st.heap[ref.oid] = HList(o.kind, it)
                return [(v, st)]
            al = list(o.items) + list(o.tail)
            if not al:
                return [(self.exc('IndexError', 'pop', node), st)]
            if o.kind == 'set' and not o.tail and len(al) == 1:
                st.heap[ref.oid] = HList(o.kind, ())
                return [(al[0], st)]
            st.heap[ref.oid] = HList(o.kind, (), al)
            return self.alts(al, st)
        if name == 'remove' and not o.tail and any(self.has_method(x, '__eq__', st) for x in o.items):
            out, cur = [], [st]
            for i, x in enumerate(o.items):
                nxt = []
                for s in cur:
                    for v, s2 in [(TRUE, s)] if x == args[0] else self.compare(ast.Eq(), x, args[0], s, node, fr):
                        if v.__class__ is Exc:
                            out.append((v, s2))
                            continue
                        for t, s3 in self.truth(v, s2, fr):
                            if t:
                                s3.heap[ref.oid] = HList(o.kind, o.items[:i] + o.items[i + 1:])
                                out.append((NONE, s3))
                            else:
                                nxt.append(s3)
                cur = nxt
            return out + [(self.exc('ValueError', 'remove', node), s) for s in cur]
        if name in ('remove', 'discard'):
            rs = [self.eqv(args[0], x, st) for x in o.items]
            if True in rs and not o.tail and None not in rs[:rs.index(True)]:
                it = list(o.items)
                del it[rs.index(True)]
                st.heap[ref.oid] = HList(o.kind, it)
                return [(NONE, st)]
            if None not in rs and not o.tail:
                return [(NONE, st)] if name == 'discard' else [(self.exc('ValueError', 'remove', node), st)]
            st.heap[ref.oid] = HList(o.kind, (), set(o.items) | o.tail)
            return [(NONE, st)]
        if name == 'clear':
            st.heap[ref.oid] = HList(o.kind)
            return [(NONE, st)]
        if name == 'copy':
            return [(st.alloc(o), st)]
        if name == 'reverse':
            st.heap[ref.oid] = HList(o.kind, o.items[::-1], o.tail) if not o.tail else \
                HList(o.kind, (), set(o.items) | o.tail)
            return [(NONE, st)]
        if name == 'sort':
            r = self.call_builtin('builtins.sorted', [ref], kw, st, node, fr)

            def f(v, s):
                if isinstance(v, Ref):
                    s.heap[ref.oid] = s.heap[v.oid]
                return [(NONE, s)]
            return bind(r, f)
        if name in ('index', 'count') and not o.tail:
            rs = [self.eqv(args[0], x, st) for x in o.items]
            if name == 'count':
                if None not in rs:
                    return [(K(rs.count(True)), st)]
            elif True in rs and None not in rs[:rs.index(True)]:
                return [(K(rs.index(True)), st)]
            elif None not in rs:
                return [(self.exc('ValueError', 'index', node), st)]
        if name in ('union', 'difference', 'intersection') and o.kind == 'set':
            cur = ref
            for a in args:
                items, tail = self.iter_of(a, st)
                b = st.list(items, tail, 'set')
                op = {'union': ast.BitOr(), 'difference': ast.Sub(), 'intersection': ast.BitAnd()}[name]
                cur = self.binop(op, cur, b, st, node, fr)[0][0]
                if not isinstance(cur, Ref):
                    cur = st.list((), set(o.items) | o.tail | set(items) | set(tail), 'set')
            return [(cur, st)]
        if name in ('issubset', 'issuperset') and not o.tail:
            items, tail = self.iter_of(args[0], st)
            if not tail:
                a, b = (o.items, items) if name == 'issubset' else (items, o.items)
                return [(K(all(x in b for x in a)), st)]
        if name == '__len__':
            return self.call_builtin('builtins.len', [ref], {}, st, node, fr)
        if name == '__contains__':
            return self.contains(ref, args[0], st, node, fr)
        if name == '__getitem__':
            return self.getitem(ref, args[0], st, node, fr)
        if name == '__iter__':
            return [(ref, st)]
        return None

    def dict_method(self, ref, o, name, args, kw, st, node, fr):
        if name == 'get':
            dflt = args[1] if len(args) > 1 else kw.get('default', NONE)
            oo = HDict(o.items, o.rest)
            s0 = st
            keep = s0.heap[ref.oid]
            s0.heap[ref.oid] = oo
            out = []
            for v, s in self.dict_item(ref, args[0], s0, node, fr):
                s.heap[ref.oid] = keep
                if v.__class__ is Exc:
                    out.append((dflt, s))
                else:
                    out.append((v, s))
            if o.rest and args[0] not in o.items:
                s2 = out[-1][1].copy()
                out.append((dflt, s2))
            return out
        if name == '__getitem__':
            return self.dict_item(ref, args[0], st, node, fr)
        if name == '__setitem__':
            return self.setitem(ref, args[0], args[1], st, node, fr)
        if name == '__contains__':
            return self.contains(ref, args[0], st, node, fr)
        if name == 'keys':
            return [(st.list(list(o.items), [k for k, _ in o.rest], 'set'), st)]
        if name == 'values':
            return [(st.list(list(o.items.values()), [v for _, v in o.rest]), st)]
        if name == 'items':
            return [(st.list([Tup((k, v)) for k, v in o.items.items()], [Tup(p) for p in o.rest]), st)]
        if name == 'update':
            if self.watch_items:
                self.event(st, Event('setitem', 'update', ref, tuple(self.freeze(a, st) for a in args), {}, node,
                                     st.locks, None, fr and fr.fn))
            self.dict_update(ref, args, kw, st)
            return [(NONE, st)]
        if name == 'pop':
            if self.watch_items:
                self.event(st, Event('delitem', 'pop', ref, (args[0],), {}, node, st.locks, None, fr and fr.fn))
            k = args[0]
            if k in o.items:
                d = dict(o.items)
                v = d.pop(k)
                st.heap[ref.oid] = HDict(d, o.rest, o.factory)
                return [(v, st)]
            if not o.rest and isinstance(k, K) and all(isinstance(x, K) for x in o.items):
                if len(args) > 1:
                    return [(args[1], st)]
                return [(self.exc('KeyError', k, node), st)]
            out = []
            for v, s in self.dict_item(ref, k, st, node, fr):
                out.append((args[1] if v.__class__ is Exc and len(args) > 1 else v, s))
            return out
        if name == 'popitem' and o.items and not o.rest:
            d = dict(o.items)
            k = list(d)[-1]
            v = d.pop(k)
            st.heap[ref.oid] = HDict(d, o.rest, o.factory)
            return [(Tup((k, v)), st)]
        if name == 'setdefault':
            k = args[0]
            if k in o.items:
                return [(o.items[k], st)]
            v = args[1] if len(args) > 1 else NONE
            if isinstance(k, K) and all(isinstance(x, K) for x in o.items):
                self.setitem(ref, k, v, st, node, fr)
                return [(v, st)]
            out = []
            for x, s in self.dict_item(ref, k, st, node, fr):
                if x.__class__ is Exc:
                    self.setitem(ref, k, v, s, node, fr)
                    out.append((v, s))
                else:
                    out.append((x, s))
            return out
        if name == 'clear':
            st.heap[ref.oid] = HDict({}, (), o.factory)
            return [(NONE, st)]
        if name == 'copy':
            return [(st.alloc(o), st)]
        if name == '__iter__':
            return self.dict_method(ref, o, 'keys', [], {}, st, node, fr)
        if name == '__len__':
            return self.call_builtin('builtins.len', [ref], {}, st, node, fr)
        return None
