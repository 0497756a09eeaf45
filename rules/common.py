"""Shared helpers of the gateway rules: the abstract schema's physical names, provenance scans, encoding reference."""
from sa.gateway import *
from sa.absint import AnalysisError

# label of a physical column -> (cipher class, which secret of the column keys it)
LABELS = {'order-preserving': ('OPECipher', ('key',)), 'symmetric': ('AESCipher', ('key',)),
          'fuzzy': ('FuzzyCipher', ('key',)), 'arithmetic': ('HomomorphicCipher', ('hk0', 'hk1')),
          'sm4': ('SM4CipherBytes', ('sm4key',))}
PREFIX = {'t': '', 's': 's_', 'u': 'u_'}


def physical(meta=None):
    """physical column name -> (table, column, label)"""
    res = {}
    for t, info in (meta or schema())[DB].items():
        for c, ci in info['columns'].items():
            for label, ph in ci['enc-cols'].items():
                res[ph] = (t, c, label)
    return res


def keyset(table, col, label):
    return frozenset('%s:%s%s' % (k, PREFIX[table], col) for k in LABELS[label][1])


def is_term(x):
    return isinstance(x, V)


def leaves(x, path=()):
    """(path, leaf) for every leaf of a lowered structure (keys of dicts are leaves too, path ends in '<key>')."""
    if isinstance(x, dict):
        for k, v in x.items():
            yield path + ('<key>',), k
            yield from leaves(v, path + (k if isinstance(k, str) else repr(k),))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def syms_in(v):
    """names of the symbols inside a term"""
    res = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Sym):
            res.add(x.name)
        elif isinstance(x, T):
            stack.extend(a for a in x.args if isinstance(a, V))
            for a in x.args:
                if isinstance(a, frozenset):
                    stack.extend(a)
        elif isinstance(x, Tup):
            stack.extend(x.items)
        elif isinstance(x, Exc):
            stack.append(x.val)
        elif isinstance(x, Meth):
            stack.append(x.recv)
        elif isinstance(x, (dict, list, tuple)):
            for _, l in leaves(x):
                if isinstance(l, V):
                    stack.append(l)
    return res


def occurrences(v, inside=None):
    """(symbol name, enclosing enc term or None) for every symbol of a term (keys of encryptions excluded)."""
    if isinstance(v, Sym):
        yield v.name, inside
    elif isinstance(v, T):
        if v.op == 'enc':
            yield from occurrences(v.args[2], v)
            return
        for a in v.args:
            if isinstance(a, frozenset):
                for b in a:
                    yield from occurrences(b, inside)
            elif isinstance(a, V):
                yield from occurrences(a, inside)
    elif isinstance(v, Tup):
        for a in v.items:
            yield from occurrences(a, inside)
    elif isinstance(v, Meth):
        yield from occurrences(v.recv, inside)
    elif isinstance(v, (dict, list, tuple)):
        for _, l in leaves(v):
            yield from occurrences(l, inside)
    elif isinstance(v, Opaque):
        yield 'opaque:' + v.s, inside


def strip(v):
    """value without int()/str() conversions: what is encrypted, not how it is spelled."""
    while True:
        if isinstance(v, T) and v.op in ('str', 'int') and len(v.args) == 1:
            v = v.args[0]
        elif isinstance(v, T) and v.op == 'cat' and len(v.args) == 1:
            v = v.args[0]
        elif isinstance(v, T) and v.op == 'call' and v.args[0] in (K('builtins.int'), K('builtins.str')) \
                and len(v.args[2].items) == 1:
            v = v.args[2].items[0]
        else:
            return v


def unconverted(v):
    """the term with float(x) / int(x) of a symbol replaced by the symbol: '2.5' and 2.5 are the same constant"""
    if isinstance(v, T):
        if v.op in ('float', 'int') and len(v.args) == 1 and isinstance(v.args[0], Sym):
            return Sym(v.args[0].name)
        return T(v.op, tuple(unconverted(a) if isinstance(a, V) else a for a in v.args), v.kind)
    return Sym(v.name) if isinstance(v, Sym) else v


_enc_cache = {}


def encoded(gw, sym, typ):
    """the set of values the gateway's own numeric encoding can give `sym` for a column type (conversions stripped)."""
    k = (id(gw), sym, typ)
    if k not in _enc_cache:
        st = gw.rewriter_states()[0]
        f = gw.I.mod_get(CRYPTO_MOD, 'encode', st)
        res = set()
        for v, s in gw.I.call(f, [sym, K(typ)], {}, st, None, None):
            if not isinstance(v, Exc):
                res.add(strip(v))
        if not res:
            raise AnalysisError('encode(%s) has no normal outcome' % typ)
        _enc_cache[k] = res
    return _enc_cache[k]


def enc_ok(gw, term, table, col, label, sym, meta):
    """is `term` the encryption of `sym` for physical column (table, col, label)? -> None or what is wrong"""
    if not (isinstance(term, T) and term.op == 'enc'):
        return 'is not ciphertext (%r)' % (term,)
    cls, key, arg = term.args
    if cls.v != LABELS[label][0]:
        return 'is produced by %s, the column is a %s column' % (cls.v, label)
    if syms_in(key) != set(keyset(table, col, label)):
        return 'is keyed by %s instead of %s' % (sorted(syms_in(key)), sorted(keyset(table, col, label)))
    typ = meta[DB][table]['columns'][col]['type']
    if strip(arg) not in encoded(gw, sym, typ) and \
            unconverted(strip(arg)) not in {unconverted(x) for x in encoded(gw, Sym(sym.name, 'float'), typ)}:
        return 'encrypts %r, not the stored encoding of the value' % (arg,)
    return None


def value_shapes(typ, name):
    """what the parser hands over for a constant of this column type: [(tag, json, symbol)]"""
    if typ == 'int':
        s = Sym(name, 'int')
        return [('number', s, s)]
    if typ in ('float', 'double'):
        s = Sym(name, 'float')
        return [('number', s, s)]
    s = Sym(name, 'str')
    return [('string', {'literal': s}, s)]


def unwrap(v):
    """{'value': {'literal': x}} / {'literal': x} / x -> x"""
    while isinstance(v, dict) and len(v) == 1 and next(iter(v)) in ('value', 'literal'):
        v = next(iter(v.values()))
    return v


def same_constants(gw, rep, meta, what, statement, kinds=('int', 'float', 'double')):
    """constants MySQL takes for the same value of a numeric column are sent as the same ciphertext; `statement` makes the
    statement for (column, constant). A number an integer column cannot hold is refused, or rounded as MySQL does."""
    def sent(c, x):
        n = len(gw.captured)
        gw.rewrite(statement(c, x))
        return [repr(cap) for cap in gw.captured[n:]]
    for c, ci in meta[DB]['t']['columns'].items():
        if ci['plaintext'] or ci['type'] not in kinds:
            continue
        texts = [({'literal': '5'}, 5), ({'literal': '-05'}, -5), ({'literal': ' 7'}, 7)]
        if ci['type'] != 'int':
            texts += [({'literal': '1.5'}, 1.5), ({'literal': '2.50'}, 2.5), ({'literal': '1e2'}, 100)]
        else:
            texts += [({'literal': '9007199254740993'}, 9007199254740993)]      # more digits than a float keeps
        for a, b in [(True, 1), (False, 0), (2.0, 2), (-3.0, -3), (0.0, 0)] + texts:
            one, two = sent(c, a), sent(c, b)
            rep.count('equal constants')
            if two:
                rep.check(not one or one == two, '%s: %r and %r' % (what, a, b),
                          '%s column %s: sent as %s and as %s' % (ci['type'], c, one, two))
        if ci['type'] == 'int':
            for a, b in ((1.5, 2), (-1.5, -2), (0.4, 0)):
                one = sent(c, a)
                rep.count('equal constants')
                rep.check(not one or (what != 'condition' and one == sent(c, b)), '%s: %r of an INT column' % (what, a),
                          '%s is sent as %s' % (c, one))
    rep.need('equal constants', 10)
