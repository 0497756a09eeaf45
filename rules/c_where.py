from .common import *

EQ = ('eq', 'neq', 'in', 'nin')
ORD = ('gt', 'gte', 'lt', 'lte', 'between', 'not_between')
FUZ = ('like', 'not_like')
OTHER = ('rlike', 'not_rlike', 'regexp')
UNARY = ('missing', 'exists')
SUITABLE = {}
for _o in EQ:
    SUITABLE[_o] = ('symmetric', 'sm4', 'order-preserving')
for _o in ORD:
    SUITABLE[_o] = ('order-preserving',)
for _o in FUZ:
    SUITABLE[_o] = ('fuzzy',)


def consts(typ, n):
    """constants of every shape the parser produces, for column type typ: (tag, [json per constant], [symbols])"""
    names = ['x%d' % k for k in range(n)]
    ints = [Sym(a, 'int') for a in names]
    flts = [Sym(a, 'float') for a in names]
    strs = [Sym(a, 'str') for a in names]
    yield 'int', list(ints), ints
    yield 'float', list(flts), flts
    yield 'string', [{'literal': s} for s in strs], strs


def operand_forms(op, c, typ):
    """(tag, operand list, symbols) for the operator applied to column c"""
    n = {'in': 2, 'nin': 2, 'between': 2, 'not_between': 2}.get(op, 1)
    for tag, js, syms in consts(typ, n):
        if op in ('in', 'nin'):
            if tag == 'string':
                yield tag, [c, {'literal': list(syms)}], syms
                yield tag + ' single', [c, js[0]], syms[:1]
            else:
                yield tag, [c, list(js)], syms
                yield tag + ' single', [c, js[0]], syms[:1]
        else:
            yield tag, [c] + js, syms
    if op in FUZ and typ in ('varchar', 'char'):
        for pattern in PATTERNS:
            yield 'pattern ' + pattern, [c, {'literal': pattern}], [K(pattern)]
    if op in FUZ and typ == 'int':
        for number in (12345, -12345, 100):
            yield 'number %d' % number, [c, number], [K(number)]


PATTERNS = ('abc', 'abc%', '%abc', '%abc%', 'abcd%efgh', '%abc%def%', '%%abc', 'a1b2c3', '%', '% abc%')


def statements(where, kinds=('select', 'delete', 'update')):
    if 'select' in kinds:
        yield 'SELECT', {'select': {'value': 'pv'}, 'from': 't', 'where': where}
    if 'delete' in kinds:
        yield 'DELETE', {'delete': 't', 'where': where}
    if 'update' in kinds:
        yield 'UPDATE', {'update': 't', 'set': {'pi': 1}, 'where': where}


def positions(cond, other):
    yield 'bare', cond
    yield 'first of AND', {'and': [cond, other]}
    yield 'second of AND', {'and': [other, cond]}
    yield 'second of OR', {'or': [other, cond]}
    yield 'OR inside AND', {'and': [other, {'or': [other, cond]}]}
    yield 'AND inside OR', {'or': [{'and': [cond, other]}, other]}
    yield 'third of AND', {'and': [other, other, cond]}
    yield 'fourth of OR', {'or': [other, other, other, cond]}
    yield 'deep', {'or': [{'and': [other, {'or': [other, {'and': [other, other, cond]}]}]}, other]}
    yield 'twice', {'or': [cond, cond]}
    yield 'NOT', {'not': cond}


def conditions(meta, tier):
    """(tag, condition json, column, symbols, op, simple?)"""
    cols = meta[DB]['t']['columns']
    for c, ci in cols.items():
        for op in EQ + ORD + FUZ + OTHER:
            for tag, operands, syms in operand_forms(op, c, ci['type']):
                yield '%s %s %s' % (op, ci['type'] if not ci['plaintext'] else 'plaintext ' + ci['type'], tag), \
                      {op: operands}, c, syms, op
        kind = ci['type'] if not ci['plaintext'] else 'plaintext ' + ci['type']
        for op in UNARY:
            yield '%s %s' % (op, kind), {op: c}, c, [], op
        for op in EQ[:2] + ORD[:4] + FUZ:
            yield '%s %s NULL' % (op, kind), {op: [c, {'null': {}}]}, c, [], op
        a, b = Sym('x0', 'str'), Sym('x1', 'int')
        for op in EQ[2:]:
            yield '%s %s mixed list' % (op, kind), {op: [c, [{'literal': a}, b, {'null': {}}]]}, c, [a, b], op
        for op in ('is', 'is_not'):
            yield '%s %s' % (op, kind), {op: [c, True]}, c, [], op


def run(project, tier):
    meta = schema()
    gw = Gateway(project, meta)
    cols = meta[DB]['t']['columns']
    other = {'eq': ['pi', 7]}
    seen = set()
    for tag, cond, c, syms, op in conditions(meta, tier):
        sig = (op, tuple(cols[c]['enc-cols']), cols[c]['type'], tag)
        full = tier == 'thorough' or (op in ('eq', 'neq', 'gt', 'in', 'like', 'between') and c in ('i', 'v', 'f')
                                      and ('string' in tag) == (c == 'v') and 'single' not in tag)
        for pos, w in positions(cond, other):
            if pos != 'bare' and not full:
                continue
            kinds = ('select', 'delete', 'update') if full else ('select',)
            for kind, js in statements(w, kinds):
                n = len(gw.captured)
                outs = gw.rewrite(js)
                yield gw, meta, kind, pos, tag, cond, c, syms, op, js, outs, gw.captured[n:]


def col_leaks(rep, meta, caps, key, c, syms, table='t'):
    names = {s.name for s in syms if isinstance(s, Sym)}
    enc = not meta[DB][table]['columns'][c]['plaintext']
    for cap in caps:
        for name, inside in occurrences(cap):
            if name.startswith('opaque:'):
                raise AnalysisError('captured statement not fully modelled: ' + name)
            if name not in names or not enc:
                continue
            rep.count('constant_occurrences')
            if inside is None:
                rep.bad(key, 'a constant compared with encrypted column %s is part of the statement sent to the '
                             'backend outside any encryption: %r' % (c, cap.get('where', cap)))
                continue
            keys = syms_in(inside.args[1])
            allowed = {k for l in meta[DB][table]['columns'][c]['enc-cols'] for k in keyset(table, c, l)}
            rep.check(bool(keys) and keys <= allowed, key + ' key',
                      'constant for %s encrypted with %r keyed by %s' % (c, inside.args[0], sorted(keys)),
                      '%s: inside %r keyed by %s' % (key, inside.args[0], sorted(keys)))


FUNCTIONS = ('neg', 'binary_not', 'length', 'char_length', 'distinct', 'trim', 'concat', 'coalesce', 'ifnull', 'cast', 'abs',
             'count', 'max', 'sum', 'date', 'collate', 'binary', 'interval', 'any', 'unknown_function')


def compared_columns():
    """comparisons of an encrypted column with another column of the same table"""
    x = Sym('x', 'int')
    for a, b, plain in (('v', 'c', 'pv'), ('i', 'ia', 'pi'), ('f', 'd', 'pi')):
        for op in EQ[:2] + ORD[:4] + FUZ:
            for l, r in ((a, plain), (plain, a), (a, b)):
                yield '%s %s %s' % (l, op, r), {op: [l, r]}
                yield 'NOT %s %s %s' % (l, op, r), {'not': {op: [l, r]}}
        for op in ORD[4:]:
            for l, r, t in ((a, plain, x), (a, x, plain), (plain, a, x), (plain, x, a), (a, b, b)):
                yield '%s %s %s' % (l, op, (r, t)), {op: [l, r, t]}
        for op in EQ[2:]:
            for l, r in ((a, [plain, plain]), (a, [x, plain]), (plain, [a, x]), (plain, [x, a]), (a, [b, x])):
                yield '%s %s %s' % (l, op, r), {op: [l, r]}


def special(meta):
    """conditions outside the column-operator-constant form; each must be refused or carry only ciphertext"""
    x, s = Sym('x', 'int'), Sym('x', 'str')
    lit = {'literal': s}
    inner = {'select': {'value': 'v'}, 'from': 's', 'where': {'eq': ['v', lit]}}
    base = lambda w: {'select': {'value': 'pv'}, 'from': 't', 'where': w}
    for op in ('eq', 'neq', 'gt', 'lte'):
        yield 'reversed ' + op, base({op: [x, 'i']}), 'i', [x], 't'
    for op in ('eq', 'neq', 'like', 'in'):
        yield 'function of the column, ' + op, base({op: [{'lower': 'v'}, lit]}), 'v', [s], 't'
        yield 'function of the constant, ' + op, base({op: ['v', {'upper': lit}]}), 'v', [s], 't'
        yield 'qualified column, ' + op, base({op: ['t.v', lit]}), 'v', [s], 't'
        for fn in FUNCTIONS:
            yield '%s of the column, %s' % (fn, op), base({op: [{fn: 'v'}, lit]}), 'v', [s], 't'
            yield '%s of the constant, %s' % (fn, op), base({op: ['v', {fn: lit}]}), 'v', [s], 't'
            yield '%s of column and constant, %s' % (fn, op), base({op: [{fn: ['v', lit]}, 'pv']}), 'v', [s], 't'
    for op in ('eq', 'gt', 'lt'):
        yield 'arithmetic on the column, ' + op, base({op: [{'add': ['i', 1]}, x]}), 'i', [x], 't'
        yield 'arithmetic on the constant, ' + op, base({op: ['i', {'add': [x, 1]}]}), 'i', [x], 't'
        for fn in FUNCTIONS:
            yield '%s of a number column, %s' % (fn, op), base({op: [{fn: 'i'}, x]}), 'i', [x], 't'
            yield '%s of a number, %s' % (fn, op), base({op: ['i', {fn: x}]}), 'i', [x], 't'
    yield 'IN subquery', base({'in': ['pv', inner]}), 'v', [s], 's'
    yield 'IN subquery on an encrypted column', base({'in': ['v', inner]}), 'v', [s], 's'
    yield 'EXISTS subquery', base({'exists': inner}), 'v', [s], 's'
    yield 'scalar subquery', base({'eq': ['pv', inner]}), 'v', [s], 's'
    yield 'HAVING', {'select': {'value': 'pv'}, 'from': 't', 'groupby': {'value': 'pv'},
                     'having': {'eq': ['v', lit]}}, 'v', [s], 't'
    yield 'HAVING on an aggregate', {'select': {'value': 'pv'}, 'from': 't', 'groupby': {'value': 'pv'},
                                     'having': {'gt': [{'max': 'i'}, x]}}, 'i', [x], 't'
    yield 'CASE', {'select': {'value': {'case': [{'when': {'eq': ['v', lit]}, 'then': 1}, 0]}}, 'from': 't'}, \
          'v', [s], 't'
    yield 'function with a constant', {'select': {'value': {'concat': ['v', lit]}}, 'from': 't'}, 'v', [s], 't'
    yield 'ORDER BY expression', {'select': {'value': 'pv'}, 'from': 't',
                                  'orderby': {'value': {'eq': ['v', lit]}}}, 'v', [s], 't'
    yield 'derived table', {'select': {'value': 'q.v'}, 'from': {'name': 'q', 'value': {
        'select': {'value': 'v'}, 'from': 't', 'where': {'eq': ['v', lit]}}}}, 'v', [s], 't'
    yield 'derived table, unsupported operator', {'select': {'value': 'q.v'}, 'from': {'name': 'q', 'value': {
        'select': {'value': 'v'}, 'from': 't', 'where': {'neq': ['v', lit]}}}}, 'v', [s], 't'
    yield 'around a derived table', {'select': {'value': 'q.v'}, 'from': {'name': 'q', 'value': {
        'select': {'value': 'v'}, 'from': 't'}}, 'where': {'eq': ['v', lit]}}, 'v', [s], 't'
    for op in ('eq', 'neq', 'like', 'in'):
        yield 'around a derived table, ' + op, {'select': {'value': 'q.v'}, 'from': {'name': 'q', 'value': {
            'select': {'value': 'v'}, 'from': 't'}}, 'where': {op: ['q.v', lit]}}, 'v', [s], 't'
        yield 'over a join, ' + op, {'select': {'value': 't.v'}, 'from': ['t', {'join': 's', 'on': {
            'eq': ['t.i', 's.i']}}], 'where': {op: ['t.v', lit]}}, 'v', [s], 't'
        yield 'in the join condition, ' + op, {'select': {'value': 't.v'}, 'from': ['t', {'join': 's', 'on': {
            'and': [{'eq': ['t.i', 's.i']}, {op: ['t.v', lit]}]}}]}, 'v', [s], 't'
    for op in ('gt', 'lt', 'gte', 'lte'):
        yield 'over a join, ' + op, {'select': {'value': 't.v'}, 'from': ['t', {'join': 's', 'on': {
            'eq': ['t.i', 's.i']}}], 'where': {op: ['t.i', x]}}, 'i', [x], 't'
    yield 'list of derived tables', {'select': {'value': 'q.v'}, 'from': [
        {'name': 'q', 'value': {'select': {'value': 'v'}, 'from': 't', 'where': {'eq': ['v', lit]}}},
        {'join': 's', 'on': {'eq': ['q.i', 's.i']}}]}, 'v', [s], 't'
    for op in ('union', 'union_all'):
        yield op, {op: [{'select': {'value': 'v'}, 'from': 't', 'where': {'eq': ['v', lit]}},
                        {'select': {'value': 'v'}, 'from': 's'}]}, 'v', [s], 't'
    yield 'WITH', {'with': {'name': 'q', 'value': {'select': {'value': 'v'}, 'from': 't', 'where': {'eq': ['v', lit]}}},
                   'select': {'value': 'pv'}, 'from': 't'}, 'v', [s], 't'
    cte = {'name': 'q', 'value': {'select': {'value': 'v'}, 'from': 't', 'where': {'eq': ['v', lit]}}}
    sub = {'select': {'value': 'v'}, 'from': 't', 'where': {'eq': ['v', lit]}}
    plain = {'select': {'value': 'pv'}, 'from': 't'}
    extra = [('WITH', {'with': cte}), ('WITH RECURSIVE', {'with_recursive': cte}), ('WITH list', {'with': [cte, cte]}),
             ('DISTINCT ON', {'distinct_on': {'value': {'eq': ['v', lit]}}}),
             ('TOP', {'top': {'eq': ['v', lit]}}), ('LIMIT expression', {'limit': {'eq': ['v', lit]}}),
             ('OFFSET expression', {'offset': {'eq': ['v', lit]}}), ('FETCH expression', {'fetch': {'eq': ['v', lit]}})]
    for tag, d in extra:
        yield tag, {**plain, **d}, 'v', [s], 't'
        yield tag + ' in a derived table', {'select': {'value': 'q.pv'}, 'from': {'name': 'q', 'value': {**plain, **d}}}, \
            'v', [s], 't'
        yield tag + ' in a listed derived table', {'select': {'value': 'q.pv'}, 'from': [
            {'name': 'q', 'value': {**plain, **d}}, {'join': 's', 'on': {'eq': ['q.i', 's.i']}}]}, 'v', [s], 't'
        yield tag + ' in a joined derived table', {'select': {'value': 't.pv'}, 'from': [
            't', {'join': {'name': 'q', 'value': {**plain, **d}}, 'on': {'eq': ['q.i', 't.i']}}]}, 'v', [s], 't'
        yield tag + ' in a union', {'union': [{**plain, **d}, plain]}, 'v', [s], 't'
        yield tag + ' around a union', {'from': {'union': [plain, plain]}, **d}, 'v', [s], 't'
    yield 'derived table twice', {'select': {'value': 'q.pv'}, 'from': {'name': 'q', 'value': {
        'select': {'value': 'r.pv'}, 'from': {'name': 'r', 'value': sub}}}}, 'v', [s], 't'
    yield 'union in a derived table', {'select': {'value': 'q.v'}, 'from': {'name': 'q', 'value': {
        'union_all': [sub, sub]}}}, 'v', [s], 't'
    yield 'joined derived table', {'select': {'value': 't.pv'}, 'from': [
        't', {'join': {'name': 'q', 'value': sub}, 'on': {'eq': ['q.i', 't.i']}}]}, 'v', [s], 't'
    for j in ('inner join', 'left join', 'right join', 'cross join', 'full join', 'left outer join', 'right outer join'):
        yield j + ' condition', {'select': {'value': 't.pv'}, 'from': ['t', {j: 's', 'on': {
            'and': [{'eq': ['t.i', 's.i']}, {'eq': ['t.v', lit]}]}}]}, 'v', [s], 't'
    yield 'window', {'select': {'value': {'row_number': {}}, 'over': {'partitionby': {'eq': ['v', lit]}}},
                     'from': 't'}, 'v', [s], 't'
    yield 'window order', {'select': {'value': {'row_number': {}}, 'over': {'orderby': {'value': {'eq': ['v', lit]}}}},
                           'from': 't'}, 'v', [s], 't'
    yield 'filter', {'select': {'value': {'count': 'pv'}, 'filter': {'eq': ['v', lit]}}, 'from': 't'}, 'v', [s], 't'
    yield 'GROUP BY expression', {'select': {'value': 'pv'}, 'from': 't', 'groupby': {'value': {'eq': ['v', lit]}}}, \
        'v', [s], 't'
    yield 'GROUP BY list', {'select': {'value': 'pv'}, 'from': 't', 'groupby': [
        {'value': 'pv'}, {'value': {'eq': ['v', lit]}}]}, 'v', [s], 't'
    yield 'ORDER BY list', {'select': {'value': 'pv'}, 'from': 't', 'orderby': [
        {'value': 'pv'}, {'value': {'eq': ['v', lit]}}]}, 'v', [s], 't'
    yield 'scalar subquery selected', {'select': {'value': sub, 'name': 'q'}, 'from': 't'}, 'v', [s], 't'
    yield 'condition selected', {'select': {'value': {'eq': ['v', lit]}}, 'from': 't'}, 'v', [s], 't'
    yield 'DISTINCT condition', {'select_distinct': [{'value': {'eq': ['v', lit]}}], 'from': 't'}, 'v', [s], 't'
    yield 'UPDATE SET subquery', {'update': 't', 'set': {'pv': sub}}, 'v', [s], 't'
    yield 'UPDATE SET condition', {'update': 't', 'set': {'pi': {'eq': ['v', lit]}}}, 'v', [s], 't'
    yield 'INSERT of a condition', {'insert': 't', 'columns': ['pi'], 'query': {
        'select': [{'value': {'eq': ['v', lit]}}]}}, 'v', [s], 't'
    yield 'INSERT of a subquery', {'insert': 't', 'columns': ['pv'], 'query': {'select': [{'value': sub}]}}, 'v', [s], 't'
    yield 'INSERT ... WITH', {'insert': 't', 'columns': ['pv'], 'query': {**plain, 'with': cte}}, 'v', [s], 't'
    yield 'INSERT of a union', {'insert': 't', 'columns': ['pv'], 'query': {'union_all': [sub, sub]}}, 'v', [s], 't'
    yield 'SELECT DISTINCT', {'select_distinct': {'value': 'v'}, 'from': 't', 'where': {'eq': ['v', lit]}}, 'v', [s], 't'
    yield 'INSERT ... SELECT', {'insert': 't', 'columns': ['v'], 'query': {
        'select': [{'value': 'v'}], 'from': 's', 'where': {'eq': ['v', lit]}}}, 'v', [s], 's'


def check_C04(project, rep):
    accepted = refused = 0
    for gw, meta, kind, pos, tag, cond, c, syms, op, js, outs, caps in run(project, rep.tier):
        rep.count('statements')
        rep.count('paths', len(outs))
        accepted += bool(caps)
        refused += not caps
        if not caps:
            rep.ok()
        col_leaks(rep, meta, caps, '%s condition %s, %s' % (kind, tag, pos), c, syms)
    meta = schema()
    gw = Gateway(project, meta)
    for tag, js, c, syms, table in special(meta):
        n = len(gw.captured)
        outs = gw.rewrite(js)
        rep.count('statements')
        rep.count('paths', len(outs))
        rep.ok()
        accepted += len(gw.captured) > n
        col_leaks(rep, meta, gw.captured[n:], tag, c, syms, table)
    for tag, cond in compared_columns():
        for kind, js in statements(cond):
            n = len(gw.captured)
            gw.rewrite(js)
            rep.count('column_comparisons')
            caps = gw.captured[n:]
            rep.check(not caps, '%s: columns compared, %s' % (kind, tag), 'the condition is sent as %r' % [
                c.get('where') if isinstance(c, dict) else c for c in caps][:1], '%s: %s: refused' % (kind, tag))
    rep.count('accepted', accepted)
    rep.count('refused', refused)
    rep.need('statements', 300)
    rep.need('column_comparisons', 100)
    rep.need('accepted', 150)
    rep.need('constant_occurrences', 150)


def fuzzy_ok(term, key):
    """a LIKE pattern: '%', concatenation and FuzzyCipher ciphertext only"""
    if isinstance(term, K):
        return term.v in ('', '%')
    if isinstance(term, str):
        return term in ('', '%')
    if isinstance(term, T):
        if term.op == 'enc':
            return term.args[0].v == 'FuzzyCipher' and syms_in(term.args[1]) == set(key)
        return all(fuzzy_ok(a, key) for a in term.args if isinstance(a, (T, K, Sym, Tup))) and not isinstance(term, Sym)
    if isinstance(term, Tup):
        return all(fuzzy_ok(a, key) for a in term.items)
    return False


def parts(h):
    """text and ciphertext pieces of a concatenation"""
    if isinstance(h, str):
        return [h]
    if isinstance(h, K):
        return [str(h.v)]
    if isinstance(h, T) and h.op in ('cat', 'str'):
        return [q for a in h.args for q in parts(a)]
    if isinstance(h, T) and h.op == 'enc':
        return [h]
    return [None]


def pattern_ok(w, h, c, meta):
    """each text between the wildcards of the pattern is encrypted as it is, the wildcards stay in place"""
    ps = parts(h)
    if None in ps:
        return 'not text and ciphertext only'
    out, text = [], ''
    for p in ps:
        if isinstance(p, str):
            text += p
        else:
            out += [text, p]
            text = ''
    out.append(text)
    want, text = [], ''
    for i, piece in enumerate(w.split('%')):
        text += '%' if i else ''
        if piece:
            want += [text, piece]
            text = ''
    want.append(text)
    if len(out) != len(want):
        return '%d pieces' % (len(want) // 2)
    for a, b in zip(want, out):
        if isinstance(b, str):
            if a != b:
                return 'wildcards %r instead of %r' % (b, a)
        elif b.args[0].v != 'FuzzyCipher' or syms_in(b.args[1]) != set(keyset('t', c, 'fuzzy')) or strip(b.args[2]) != K(a):
            return '%r is not the ciphertext of %r' % (b, a)
    return None


def flat_operand(x):
    if isinstance(x, dict) and set(x) == {'literal'}:
        x = x['literal']
    if isinstance(x, (list, tuple)):
        res = []
        for y in x:
            res.extend(flat_operand(y))
        return res
    return [x]


def same_condition(gw, rep, meta, key, js, got):
    """walk the original condition and the one sent in parallel"""
    cols = meta[DB]['t']['columns']
    if not (isinstance(js, dict) and isinstance(got, dict) and list(js) == list(got)):
        return rep.bad(key, 'the condition %r is sent as %r' % (js, got))
    op, args = next(iter(js.items()))
    gargs = got[op]
    if op in ('and', 'or'):
        if not rep.check(isinstance(gargs, list) and len(gargs) == len(args), key, '%r is sent as %r' % (js, got)):
            return
        for a, b in zip(args, gargs):
            same_condition(gw, rep, meta, key, a, b)
        return
    if op == 'not':
        return same_condition(gw, rep, meta, key, args, gargs)
    c = args if op in UNARY else args[0]
    if op in UNARY and not cols[c]['plaintext']:
        # every physical column is NULL where the value is
        got_c = physical(meta).get(gargs) if isinstance(gargs, str) else None
        rep.check(got_c is not None and got_c[1] == c, key, '%r is sent as %r' % (js, got))
        return
    if cols[c]['plaintext']:
        rep.check(gargs == args, key, 'the condition %r on a plaintext column is sent as %r' % (js, got), None)
        return
    phys = physical(meta)
    if not rep.check(isinstance(gargs, (list, tuple)) and len(gargs) == len(args) and gargs[0] in phys,
                     key, 'the condition %r on encrypted column %s is sent as %r' % (js, c, got)):
        return
    _, pc, label = phys[gargs[0]]
    if not rep.check(pc == c, key, 'the condition on %s reads a physical column of %s' % (c, pc)):
        return
    if not rep.check(label in SUITABLE.get(op, ()), key, '%s is decided on the %s column of %s' % (op, label, c)):
        return
    want = [w for a in args[1:] for w in flat_operand(a)]
    have = [w for a in gargs[1:] for w in flat_operand(a)]
    if not rep.check(len(want) == len(have), key, '%d constants become %d: %r' % (len(want), len(have), got)):
        return
    for w, h in zip(want, have):
        rep.count('constants')
        if w == {'null': {}}:
            rep.check(h == w, key, 'NULL is sent as %r' % (h,))
            continue
        if label == 'fuzzy' and isinstance(w, (str, int)):
            bad = pattern_ok(str(w), h, c, meta)
            rep.check(bad is None, key, 'the pattern %r for %s becomes %r: %s' % (w, c, h, bad), '%s: %r' % (key, w))
            continue
        if label == 'fuzzy':
            rep.check(fuzzy_ok(h, keyset('t', c, label)), key, 'the pattern for %s is %r' % (c, h))
            continue
        bad = enc_ok(gw, h, 't', c, label, w, meta)
        rep.check(bad is None, key, 'the constant for the %s column of %s %s' % (label, c, bad),
                  '%s: %r -> %r' % (key, w, h))


def natural(ci, op, tag):
    """a comparison a client can expect the gateway to support on such a column"""
    text = ci['type'] in ('varchar', 'char')
    if op in UNARY:
        return ci['plaintext'] or 'symmetric' in ci['enc-cols']
    if tag.endswith('NULL') or op in ('is', 'is_not'):
        return ci['plaintext']
    if ('string' in tag or 'pattern' in tag) != text:
        return False
    if ci['plaintext']:
        return True
    if op in ('eq', 'neq', 'in'):
        return ci['type'] != 'int' or 'int ' in tag.split(' ', 2)[2] + ' '
    if op in ('gt', 'gte', 'lt', 'lte', 'between'):
        return not text and (ci['type'] != 'int' or tag.split()[-1] == 'int')
    if op == 'like' and 'fuzzy' in ci['enc-cols'] and text:
        return True
    return False


def check_C05(project, rep):
    answered = 0
    for gw, meta, kind, pos, tag, cond, c, syms, op, js, outs, caps in run(project, rep.tier):
        if not caps and natural(meta[DB]['t']['columns'][c], op, tag):
            rep.bad('%s condition %s, %s: refused' % (kind, tag, pos), 'no path sends the condition: %r' % (
                [repr(o[1])[:150] for o in outs][:2],))
        for cap in caps:
            answered += 1
            rep.count('paths')
            same_condition(gw, rep, meta, '%s condition %s, %s' % (kind, tag, pos), js['where'], cap.get('where'))
    rep.count('conditions_accepted', answered)
    meta = schema()
    gw = Gateway(project, meta)
    for op in ('eq', 'neq', 'gt', 'lte'):
        same_constants(gw, rep, meta, 'condition', lambda c, x: {
            'select': {'value': 'pi'}, 'from': 't', 'where': {op: [c, x]}})
    same_constants(gw, rep, meta, 'condition', lambda c, x: {
        'select': {'value': 'pi'}, 'from': 't', 'where': {'in': [c, [5, x]]}})
    rep.need('conditions_accepted', 150)
    rep.need('constants', 100)


# --- UPDATE -------------------------------------------------------------------------------------------------------
def updates(meta):
    cols = meta[DB]['t']['columns']
    for c, ci in cols.items():
        typ = ci['type'] if not ci['plaintext'] else 'plaintext ' + ci['type']
        i, f, s = Sym('x', 'int'), Sym('x', 'float'), Sym('x', 'str')
        for tag, js, sym in (('int', i, i), ('float', f, f), ('string', {'literal': s}, s), ('NULL', {'null': {}}, None)):
            if (tag == 'string') != (ci['type'] in ('varchar', 'char')) and tag != 'NULL' and not ci['plaintext']:
                if not (tag == 'string' and ci['type'] == 'int') and not (tag == 'int'):
                    continue
            yield '%s %s' % (typ, tag), {'update': 't', 'set': {c: js}}, {c: (js, sym)}
            yield '%s %s, with another column and a condition' % (typ, tag), \
                {'update': 't', 'set': {'pi': 3, c: js} if c != 'pi' else {'pv': {'literal': 'q'}, c: js},
                 'where': {'eq': ['pi', 4]}}, \
                ({'pi': (3, 3), c: (js, sym)} if c != 'pi' else {'pv': ({'literal': 'q'}, 'q'), c: (js, sym)})
        for tag, js in (('arithmetic', {'add': [c, i]}), ('function', {'upper': {'literal': s}})):
            yield '%s %s' % (typ, tag), {'update': 't', 'set': {c: js}}, {c: (js, tag)}
    sets, want = {}, {}
    for c, ci in cols.items():
        sym = Sym('x:' + c, {'int': 'int', 'float': 'float', 'double': 'float'}.get(ci['type'], 'str'))
        sets[c] = {'literal': sym} if sym.kind == 'str' else sym
        want[c] = (sets[c], sym)
    yield 'all columns', {'update': 't', 'set': sets}, want


def check_C03(project, rep):
    meta = schema()
    cols = meta[DB]['t']['columns']
    gw = Gateway(project, meta)
    phys = physical(meta)
    for tag, js, want in updates(meta):
        n = len(gw.captured)
        outs = gw.rewrite(js)
        rep.count('statements')
        rep.count('paths', len(outs))
        caps = gw.captured[n:]
        key = 'UPDATE ' + tag
        for cap in caps:
            rep.count('accepted')
            got = cap.get('set')
            if not rep.check(isinstance(got, dict) and cap.get('update') == 'PHYS_T', key, 'sent as %r' % (cap,)):
                continue
            expect = [p for c in want for p in ([c] if cols[c]['plaintext'] else cols[c]['enc-cols'].values())]
            if not rep.check(sorted(map(str, got)) == sorted(expect), key + ': columns',
                             'sets %s, the columns of the supplied values are %s' % (list(got), expect)):
                continue
            for name, val in got.items():
                rep.count('cells')
                if name not in phys:
                    rep.check(val == want[name][0], key + ': plaintext column', '%s is set to %r' % (name, val))
                    continue
                _, c, label = phys[name]
                w, sym = want[c]
                if sym is None:
                    rep.check(val == {'null': {}}, key + ': %s cell' % label, 'NULL becomes %r' % (val,))
                elif isinstance(sym, str):
                    rep.bad(key + ': %s cell' % label, 'the expression %r is stored as %r' % (w, val))
                else:
                    bad = enc_ok(gw, unwrap(val), 't', c, label, sym, meta)
                    rep.check(bad is None, key + ': %s cell' % label, 'the %s column of %s %s' % (label, c, bad),
                              '%s: %s <- %r' % (key, name, val))
    for c, ci in cols.items():
        if ci['plaintext']:
            continue
        for tag, js in (('DEFAULT', 'default'), ('an unknown name', 'nowhere'), ('a qualified name', 't.' + c), ('itself', c),
                        ('another column', 'pv'), ('several strings', {'literal': ['x', 'y']}), ('a subquery', {
                            'select': {'value': 'pi'}, 'from': 's'}), ('a concatenation', {'concat': [c, {'literal': 'x'}]})):
            n = len(gw.captured)
            gw.rewrite({'update': 't', 'set': {'pi': 7, c: js}})
            rep.count('expressions')
            rep.check(len(gw.captured) == n, 'UPDATE to %s of %s' % (tag, c), 'the expression itself is stored instead of its '
                                                                           'value: %r' % (gw.captured[n:],))
        for fn in ('upper', 'concat', 'coalesce', 'add', 'cast', 'if', 'substr'):
            n = len(gw.captured)
            gw.rewrite({'update': 't', 'set': {'pv': {fn: [c, {'literal': 'x'}]}}})
            rep.count('expressions')
            rep.check(len(gw.captured) == n, 'UPDATE of a plaintext column to %s() of %s' % (fn, c),
                      'the logical name is sent: %r' % (gw.captured[n:],))
    rep.need('expressions', 60)
    same_constants(gw, rep, meta, 'UPDATE', lambda c, x: {'update': 't', 'set': {'pi': 7, c: x}})
    rep.need('accepted', 20)
    rep.need('cells', 50)
