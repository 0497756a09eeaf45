"""Harness that points the dataflow engine at the SQL gateway: an abstract schema, abstract parser output, opaque
cipher classes and a captured formatter call.  Every value keeps its provenance, so 'which plaintext reaches the
backend under which cipher and key' is read off the captured statement."""
from .absint import Interp
from .project import AnalysisError
from .values import *

PARSE = ('sql_parsing.parse', 'sql_parsing.parse_mysql', 'sql_parsing.parse_sqlserver')
CRYPTO_MOD = 'scheduler.crypto.encrypt'
DB = 'db1'
EXT_OPAQUE = ('sql_parsing', 'parsing', 'dots', 'imports', 'parsing_future', 'pandas', 'numpy', 'pyspark', 'yaml', 'phe',
              'gmssl', 'cryptography', 'mysql', 'sqlite3', 'tornado')


def column(name, typ, plaintext=False, ciphers=(), prefix='', **over):
    c = {'enc-cols': {k: 'phys_%s%s_%s' % (prefix, name, k) for k in ciphers}, 'plaintext': plaintext, 'type': typ,
         'key': '' if plaintext else Sym('key:%s%s' % (prefix, name), 'str')}
    if 'arithmetic' in ciphers:
        c['homomorphic_key'] = [Sym('hk0:%s%s' % (prefix, name), 'int'), Sym('hk1:%s%s' % (prefix, name), 'int')]
    if 'sm4' in ciphers:
        c['sm4_key'] = Sym('sm4key:%s%s' % (prefix, name), 'str')
    c.update(over)
    return c


ALL = ('order-preserving', 'symmetric', 'fuzzy', 'arithmetic', 'sm4')


def schema():
    """One table with every column type the gateway can declare crossed with the cipher labels its writer emits, plus
    plaintext columns and a second table for joins."""
    t = {
        'pv': column('pv', 'varchar', True),
        'pi': column('pi', 'int', True),
        'i': column('i', 'int', ciphers=('order-preserving', 'symmetric')),
        'ia': column('ia', 'int', ciphers=('order-preserving', 'symmetric', 'fuzzy', 'arithmetic')),
        'iM': column('iM', 'int', ciphers=('order-preserving', 'symmetric', 'sm4')),
        'v': column('v', 'varchar', ciphers=('symmetric', 'fuzzy')),
        'c': column('c', 'char', ciphers=('symmetric',)),
        'f': column('f', 'float', ciphers=('order-preserving', 'symmetric')),
        'd': column('d', 'double', ciphers=('order-preserving', 'symmetric')),
    }
    s = {
        'pv': column('pv', 'varchar', True, prefix='s_'),
        'i': column('i', 'int', ciphers=('order-preserving', 'symmetric', 'arithmetic'), prefix='s_'),
        'v': column('v', 'varchar', ciphers=('symmetric', 'fuzzy'), prefix='s_'),
        'w': column('w', 'varchar', ciphers=('symmetric', 'fuzzy'), prefix='s_'),
    }
    return {DB: {'t': {'anonymous': 'PHYS_T', 'columns': t, 'comment': None},
                 's': {'anonymous': 'PHYS_S', 'columns': s, 'comment': None}}}


def enc_class(I, st, cref):
    m = I.cls_lookup(cref, 'encrypt', st)
    return m is not None


class Gateway:
    def __init__(self, project, meta=None, alter=None, extra_opaque=(), intrinsics=None, may_raise=None, watch_attrs=(),
                 watch_globals=None, watch_items=()):
        self.p = project
        self.meta = meta if meta is not None else schema()
        self.json = None
        self.alter = alter
        self.captured = []
        self.format_args = []
        intr = {}
        for n in PARSE:
            intr[n] = self._parse
        intr['sql_parsing.parse_alter_key'] = self._alter
        intr['sql_parsing.format'] = self._format
        intr['sql_parsing.format_alter_key'] = self._format
        intr['yaml.full_load'] = lambda I, a, k, st, n, fr: [(Sym('config', 'dict'), st)]
        intr['yaml.safe_load'] = intr['yaml.load'] = intr['yaml.full_load']
        intr.update(intrinsics or {})
        self.I = Interp(project, opaque=EXT_OPAQUE + tuple(extra_opaque), intrinsics=intr,
                        class_intrinsic=self._cls, may_raise=may_raise, watch_attrs=watch_attrs,
                        watch_globals=watch_globals, watch_items=watch_items)
        self._starts = {}

    # intrinsics -------------------------------------------------------------------------------
    def _parse(self, I, args, kw, st, node, fr):
        if callable(self.json):
            return [(lift(self.json(args[0]), st), st)]
        return [(lift(self.json, st), st)]

    def _alter(self, I, args, kw, st, node, fr):
        return [(lift(self.alter or {}, st), st)]

    def _format(self, I, args, kw, st, node, fr):
        v = I.freeze(args[0], st)
        r = T('sql', (K(len(self.captured)),), 'str')
        self.captured.append(lower(args[0], st))
        self.format_args.append((tuple(I.freeze(a, st) for a in args[1:]),
                                 tuple((k, I.freeze(kw[k], st)) for k in sorted(kw))))
        return [(r, st)]

    def _cls(self, I, cref, o, args, kw, st, node, fr):
        if o.mod == CRYPTO_MOD and o.node is not None and any(
                getattr(x, 'name', None) in ('encrypt', 'decrypt') for x in o.node.body):
            keyargs = Tup([I.freeze(a, st) for a in list(args) + [kw[k] for k in sorted(kw)]])
            return [(st.alloc(HInst(Ext('cipher:' + o.name), {'\0key': keyargs, 'encrypt': Partial(
                Ext('cipher.encrypt'), (K(o.name), keyargs), ()), 'decrypt': Partial(
                Ext('cipher.decrypt'), (K(o.name), keyargs), ())})), st)]
        return None

    # start-up ---------------------------------------------------------------------------------
    def starts(self, *mods):
        """states with modules imported and the metadata singleton replaced by the abstract schema."""
        self.I.intr['cipher.encrypt'] = self._enc
        self.I.intr['cipher.decrypt'] = self._dec
        out = []
        for st in self.I.start(*mods):
            if 'scheduler.schema.metadata' in st.mods:
                delta = self.I.mod_get('scheduler.schema.metadata', 'Delta', st)
                o = st.heap[delta.oid]
                hooked = dict(o.ns)
                st.heap[delta.oid] = HCls(o.name, o.mod, o.bases, hooked, o.node)
                res = self.I.call(delta, [], {}, st, None, None)
                for v, s in res:
                    if isinstance(v, Exc):
                        continue
                    m = lift(self.meta, s)
                    o = s.heap[delta.oid]
                    ns = dict(o.ns)
                    ns['meta'] = m
                    s.heap[delta.oid] = HCls(o.name, o.mod, o.bases, ns, o.node)
                    if isinstance(v, Ref) and isinstance(s.heap[v.oid], HInst) and 'meta' in s.heap[v.oid].attrs:
                        a = dict(s.heap[v.oid].attrs)
                        a['meta'] = m
                        s.heap[v.oid] = HInst(s.heap[v.oid].cls, a)
                    s.trace = ()
                    out.append(s)
            else:
                st.trace = ()
                out.append(st)
        # module start-up forks (configuration, empty metadata store) do not matter to the callers: keep one per
        # distinct configuration fact
        uniq = {}
        for s in out:
            k = tuple(sorted(repr(f) for f, b in s.facts.items() if 'config' in repr(f) and b))
            uniq.setdefault(k, s)
        return list(uniq.values())

    def _enc(self, I, args, kw, st, node, fr):
        cls, key = args[0], args[1]
        arg = args[2] if len(args) > 2 else NONE
        v = T('enc', (cls, key, I.freeze(arg, st)), 'str' if cls.v not in ('OPECipher',) else 'int')
        I.event(st, Event('enc', cls.v, NONE, (key, I.freeze(arg, st)), {}, node, st.locks, v, fr and fr.fn))
        return [(v, st)]

    def _dec(self, I, args, kw, st, node, fr):
        cls, key = args[0], args[1]
        arg = args[2] if len(args) > 2 else NONE
        v = T('dec', (cls, key, I.freeze(arg, st)))
        I.event(st, Event('dec', cls.v, NONE, (key, I.freeze(arg, st)), {}, node, st.locks, v, fr and fr.fn))
        return [(v, st)]

    # rewriting --------------------------------------------------------------------------------
    def rewriter_states(self):
        if 'rw' not in self._starts:
            self._starts['rw'] = self.starts('scheduler.handers.rewrite_hander')[:1]
        return [s.copy() for s in self._starts['rw']]

    def rewrite(self, json, encrypted_cols=None, alter=None):
        """-> list of outcomes: ('ok', captured json, rewriter ref, value, state) | ('exc', exception, None, None, state)"""
        self.json, self.alter = json, alter
        out = []
        for st in self.rewriter_states():
            cls = self.I.mod_get('scheduler.handers.rewrite_hander', 'Rewriter', st)
            a = [K(DB)]
            if encrypted_cols is not None:
                a.append(lift(encrypted_cols, st))
            for rw, s in self.I.call(cls, a, {}, st, None, None):
                if isinstance(rw, Exc):
                    out.append(('exc', rw, None, None, s))
                    continue
                for f, s2 in self.I.getattr(rw, 'rewrite_query', s, None, None):
                    for v, s3 in self.I.call(f, [Sym('sql', 'str')], {}, s2, None, None):
                        if isinstance(v, Exc):
                            out.append(('exc', v, rw, None, s3))
                        else:
                            out.append(('ok', v, rw, None, s3))
        return out
