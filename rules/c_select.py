from .pipeline import *

FUNC_LABEL = {'max': ('order-preserving',), 'min': ('order-preserving',), 'sum': ('arithmetic',), 'avg': ('arithmetic',)}


JOINS = {'inner join': 'join', 'cross join': 'join', 'left outer join': 'left join', 'right outer join': 'right join'}
PHYS_TABLES = {'PHYS_T': 't', 'PHYS_S': 's', 'PHYS_U': 'u'}


def schema3():
    m = schema()
    u = {'x': column('x', 'int', True, prefix='u_'), 'v': column('v', 'varchar', ciphers=('symmetric', 'fuzzy'), prefix='u_'),
         'i': column('i', 'int', ciphers=('order-preserving', 'symmetric'), prefix='u_'),
         'pv': column('pv', 'varchar', True, prefix='u_')}
    m[DB]['u'] = {'anonymous': 'PHYS_U', 'columns': u, 'comment': None}
    return m


def shapes(meta):
    """(tag, json, [(table, column | None, function | None)])"""
    t, s = meta[DB]['t']['columns'], meta[DB]['s']['columns']
    V = lambda x: {'value': x}

    def kind(ci):
        return ('plaintext ' if ci['plaintext'] else '') + ci['type']
    for key, word in (('select', 'SELECT'), ('select_distinct', 'SELECT DISTINCT')):
        for c, ci in t.items():
            yield '%s one %s column' % (word, kind(ci)), {key: V(c), 'from': 't'}, [('t', c, None)]
        yield word + ' list', {key: [V('v'), V('pi'), V('i'), V('pv'), V('d')], 'from': 't'}, \
            [('t', c, None) for c in ('v', 'pi', 'i', 'pv', 'd')]
        yield word + ' *', {key: '*', 'from': 't'}, [('t', c, None) for c in t]
    order = list(t)
    for k in range(0, len(order), 2):
        o = order[k:] + order[:k]
        yield 'SELECT all, rotated', {'select': [V(c) for c in o], 'from': 't'}, [('t', c, None) for c in o]
    yield 'SELECT same column twice', {'select': [V('i'), V('pv'), V('i')], 'from': 't'}, \
        [('t', 'i', None), ('t', 'pv', None), ('t', 'i', None)]
    yield 'SELECT qualified', {'select': [V('t.i'), V('pv'), V('t.v'), V('t.pi')], 'from': 't'}, \
        [('t', 'i', None), ('t', 'pv', None), ('t', 'v', None), ('t', 'pi', None)]
    yield 'SELECT with aliases', {'select': [{'value': 'v', 'name': 'x'}, {'value': 'i', 'name': 'y'}], 'from': 't'}, \
        [('t', 'v', None), ('t', 'i', None)]
    for f in ('max', 'min', 'sum', 'avg', 'count', 'lower', 'abs'):
        for c, ci in t.items():
            if f in ('lower', 'abs') and c not in ('pv', 'pi', 'i', 'v'):
                continue
            yield 'SELECT %s of %s' % (f, kind(ci)), {'select': V({f: c}), 'from': 't'}, [('t', c, f)]
        yield 'SELECT %s among columns' % f, {'select': [V('v'), V({f: 'ia'}), V('pi'), V('f')], 'from': 't'}, \
            [('t', 'v', None), ('t', 'ia', f), ('t', 'pi', None), ('t', 'f', None)]
        yield 'SELECT %s of a qualified column' % f, {'select': [V({f: 't.ia'}), V('v')], 'from': 't'}, \
            [('t', 'ia', f), ('t', 'v', None)]
    yield 'SELECT several functions', {'select': [V({'sum': 'ia'}), V({'max': 'i'}), V({'count': '*'}), V({'min': 'f'}),
                                                  V({'avg': 'ia'})], 'from': 't'}, \
        [('t', 'ia', 'sum'), ('t', 'i', 'max'), ('t', None, 'count'), ('t', 'f', 'min'), ('t', 'ia', 'avg')]
    yield 'SELECT count(*)', {'select': V({'count': '*'}), 'from': 't'}, [('t', None, 'count')]
    yield 'SELECT count(*) among columns', {'select': [V('i'), V({'count': '*'}), V('v')], 'from': 't'}, \
        [('t', 'i', None), ('t', None, 'count'), ('t', 'v', None)]
    yield 'SELECT sum of two plaintext columns', {'select': [V('pi'), V({'add': ['pi', 'pi']}), V('v'), V('i')],
                                                  'from': 't'}, \
        [('t', 'pi', None), ('t', None, 'add'), ('t', 'v', None), ('t', 'i', None)]
    yield 'SELECT sum of two encrypted columns', {'select': [V('pi'), V({'add': ['ia', 'ia']}), V('v')], 'from': 't'}, \
        None
    for j in ('join', 'inner join', 'left join', 'right join'):
        fr = ['t', {j: 's', 'on': {'eq': ['t.pv', 's.pv']}}]
        yield 'SELECT over ' + j, {'select': [V('s.v'), V('t.i'), V('t.pv'), V('s.i'), V('t.v'), V('s.pv')],
                                   'from': fr}, \
            [('s', 'v', None), ('t', 'i', None), ('t', 'pv', None), ('s', 'i', None), ('t', 'v', None), ('s', 'pv', None)]
        yield 'SELECT * over ' + j, {'select': '*', 'from': fr}, \
            [('t', c, None) for c in t] + [('s', c, None) for c in s]
        yield 'SELECT function over ' + j, {'select': [V({'max': 's.i'}), V('t.v'), V({'min': 't.f'})], 'from': fr}, \
            [('s', 'i', 'max'), ('t', 'v', None), ('t', 'f', 'min')]
        yield 'SELECT aggregate over ' + j, {'select': [V({'sum': 's.i'}), V('t.v')], 'from': fr}, \
            [('s', 'i', 'sum'), ('t', 'v', None)]
        yield 'SELECT count over ' + j, {'select': [V('t.v'), V({'count': '*'}), V('s.i')], 'from': fr}, \
            [('t', 'v', None), ('t', None, 'count'), ('s', 'i', None)]
        yield 'SELECT only count over ' + j, {'select': V({'count': '*'}), 'from': fr}, [('t', None, 'count')]
        yield 'SELECT count of columns over ' + j, {'select': [V({'count': 's.i'}), V({'count': 't.v'}), V('t.i'), V({'count': 't.pi'})],
                                                    'from': fr}, \
            [('s', 'i', 'count'), ('t', 'v', 'count'), ('t', 'i', None), ('t', 'pi', 'count')]
    fr3 = ['s', {'join': 't', 'on': {'eq': ['t.pv', 's.pv']}}]
    yield 'SELECT over a join, other order', {'select': [V('t.v'), V('s.w'), V('s.v')], 'from': fr3}, \
        [('t', 'v', None), ('s', 'w', None), ('s', 'v', None)]
    yield 'SELECT * over a join, other order', {'select': '*', 'from': fr3}, \
        [('s', c, None) for c in s] + [('t', c, None) for c in t]
    u = meta[DB]['u']['columns']
    on = lambda a, b, c: {'eq': ['%s.%s' % (a, c), '%s.%s' % (b, c)]}
    twice = [{'value': 't', 'name': 'a'}, {'join': {'value': 't', 'name': 'b'}, 'on': on('a', 'b', 'pv')}]
    yield 'a table joined with itself', {'select': [V('a.v'), V('b.i'), V('b.v')], 'from': twice}, \
        [('t', 'v', None), ('t', 'i', None), ('t', 'v', None)]
    yield 'a table joined with itself, *', {'select': '*', 'from': twice}, [('t', c, None) for c in t] * 2
    mixed = [V('u.v'), V('t.i'), V('s.v'), V('u.i'), V('t.pv'), V('s.i'), V('u.x'), V('t.v')]
    mixed_w = [('u', 'v', None), ('t', 'i', None), ('s', 'v', None), ('u', 'i', None), ('t', 'pv', None), ('s', 'i', None),
               ('u', 'x', None), ('t', 'v', None)]
    for j in ('join', 'left join', 'right join'):
        for j2 in ('join', 'inner join', 'left join'):
            for a in ('t', 's'):
                yield 'SELECT over three tables', {'select': mixed, 'from': ['t', {j: 's', 'on': on('t', 's', 'pv')}, {
                    j2: 'u', 'on': on(a, 'u', 'pv')}]}, mixed_w
    yield 'SELECT over three tables with AND', {'select': mixed, 'from': ['t', {'join': 's', 'on': on('t', 's', 'pv')}, {
        'join': 'u', 'on': {'and': [on('t', 'u', 'pv'), on('s', 'u', 'pv'), {'eq': ['u.x', 't.pi']}]}}]}, mixed_w
    yield 'SELECT * over three tables', {'select': '*', 'from': ['t', {'join': 's', 'on': on('t', 's', 'pv')}, {
        'join': 'u', 'on': on('t', 'u', 'pv')}]}, [(n, c, None) for n in ('t', 's', 'u') for c in meta[DB][n]['columns']]
    for names in (['t', 's'], ['s', 't'], ['t', 's', 'u'], ['u', 's', 't']):
        yield 'SELECT from %d tables' % len(names), {'select': [V(n + '.v') for n in names] + [V('t.pv')], 'from': names}, \
            [(n, 'v', None) for n in names] + [('t', 'pv', None)]
        yield 'SELECT from %d tables with WHERE' % len(names), {'select': [V(n + '.i') for n in names], 'from': names, 'where': on(
            't', 's', 'pv')}, [(n, 'i', None) for n in names]
    yield 'SELECT from tables and a join', {'select': mixed, 'from': ['t', 's', {'left join': 'u', 'on': on('s', 'u', 'pv')}]}, mixed_w
    for j in ('join', 'left join', 'right join', 'inner join'):
        yield 'join: using', {'select': [V('t.v'), V('s.i')], 'from': ['t', {j: 's', 'using': 'pv'}]}, \
            [('t', 'v', None), ('s', 'i', None)]
        yield 'join: using', {'select': [V('t.v'), V('s.i')], 'from': ['t', {j: 's', 'using': ['pv', 'v']}]}, \
            [('t', 'v', None), ('s', 'i', None)]
    for j in ('left outer join', 'right outer join', 'full join', 'full outer join', 'cross join', 'outer join', 'natural join'):
        for extra in ({}, {'on': on('t', 's', 'pv')}):
            yield 'join: ' + j, {'select': [V('t.v'), V('s.i')], 'from': ['t', dict({j: 's'}, **extra)]}, \
                [('t', 'v', None), ('s', 'i', None)]
    yield 'join: no condition', {'select': [V('t.v'), V('s.i')], 'from': ['t', {'join': 's'}]}, \
        [('t', 'v', None), ('s', 'i', None)]
    sub = {'select': [V('v'), V('i'), V('pv')], 'from': 't'}
    for al, tag in (('q', 'derived table'), ):
        frq = {'name': al, 'value': sub}
        yield 'SELECT over a ' + tag, {'select': [V('i'), V('v')], 'from': frq}, [('t', 'i', None), ('t', 'v', None)]
        yield 'SELECT qualified over a ' + tag, {'select': [V('q.i'), V('q.pv'), V('q.v')], 'from': frq}, \
            [('t', 'i', None), ('t', 'pv', None), ('t', 'v', None)]
        yield 'SELECT one over a ' + tag, {'select': V('q.v'), 'from': frq}, [('t', 'v', None)]
        yield 'SELECT * over a ' + tag, {'select': '*', 'from': {'name': 'q', 'value': {'select': '*', 'from': 't'}}}, \
            [('t', c, None) for c in t]
    yield 'SELECT with ORDER BY', {'select': [V('v'), V('i')], 'from': 't', 'orderby': {'value': 'i', 'sort': 'desc'}}, \
        [('t', 'v', None), ('t', 'i', None)]
    yield 'SELECT with ORDER BY', {'select': [V('v'), V('i')], 'from': 't', 'orderby': [{'value': 'f', 'sort': 'asc'}, {
        'value': 'pv'}, {'value': 'i', 'sort': 'desc'}], 'limit': 5, 'offset': 2}, [('t', 'v', None), ('t', 'i', None)]
    yield 'SELECT with GROUP BY', {'select': [V('v'), V({'count': '*'})], 'from': 't', 'groupby': {'value': 'v'}}, \
        [('t', 'v', None), ('t', None, 'count')]
    yield 'SELECT with GROUP BY', {'select': [V('v'), V('pv'), V({'max': 'i'})], 'from': 't', 'groupby': [
        {'value': 'v'}, {'value': 'pv'}], 'orderby': {'value': 'pv', 'sort': 'desc'}, 'limit': 0}, \
        [('t', 'v', None), ('t', 'pv', None), ('t', 'i', 'max')]
    yield 'SELECT DISTINCT with LIMIT', {'select_distinct': [V('v'), V('pv')], 'from': 't', 'limit': 3,
                                         'where': {'gt': ['i', 3]}}, [('t', 'v', None), ('t', 'pv', None)]
    yield 'SELECT with LIMIT', {'select': '*', 'from': 't', 'limit': Sym('lim', 'int'), 'offset': Sym('off', 'int')}, \
        [('t', c, None) for c in t]
    yield 'SELECT with WHERE', {'select': [V('v'), V('i')], 'from': 't', 'where': {'gt': ['i', 3]}}, \
        [('t', 'v', None), ('t', 'i', None)]


def outputs(cap):
    sel = cap.get('select', cap.get('select_distinct'))
    sel = sel if isinstance(sel, list) else [sel]
    return [x['value'] if isinstance(x, dict) and 'value' in x else x for x in sel]


def resolve(expr, phys):
    """output expression -> (function | None, table | None, column | None, label)"""
    f = None
    if isinstance(expr, dict):
        if len(expr) != 1:
            return None
        f, expr = next(iter(expr.items()))
        if f == 'count':
            if isinstance(expr, str) and expr.split('.')[-1] in phys:
                t, c, _ = phys[expr.split('.')[-1]]
                return f, t, c, 'plaintext'
            return f, None, expr.split('.')[-1] if isinstance(expr, str) and expr != '*' else None, 'plaintext'
    if f == 'add':
        return f, None, None, 'plaintext'
    if not isinstance(expr, str):
        return None
    name = expr.split('.')[-1]
    if name in phys:
        t, c, label = phys[name]
        return f, t, c, label
    return f, None, name, 'plaintext'


def cells(pl, phys):
    """one symbolic cell per output of the statement just sent"""
    def rows(n):
        out = outputs(pl.captured[n - 1]) if n else []
        pl.cells = [Sym('cell%d' % i, 'str') for i in range(len(out))]
        return [tuple(pl.cells)]
    return rows


def runs(project, rep, keep=None):
    meta = schema3()
    pl = Pipeline(project, meta)
    phys = physical(meta)
    for tag, js, want in shapes(meta):
        n = len(pl.captured)
        outs = pl.invoke(js, rows=cells(pl, phys))
        rep.count('statement_shapes')
        rep.count('paths', len(outs))
        caps = pl.captured[n:]
        yield pl, meta, phys, tag, js, want, outs, caps


def expected_label(meta, t, c, f):
    ci = meta[DB][t]['columns'][c]
    if ci['plaintext']:
        return ('plaintext',)
    return FUNC_LABEL.get(f, tuple(ci['enc-cols']))


MUST = ('SELECT one', 'SELECT list', 'SELECT DISTINCT', 'SELECT *', 'SELECT all', 'SELECT count(*)', 'SELECT over',
        'SELECT qualified', 'SELECT with', 'SELECT several', 'SELECT same')


def check_C06(project, rep):
    """(tables and columns) the statement sent reads the physical columns of the columns asked for, nothing else."""
    for pl, meta, phys, tag, js, want, outs, caps in runs(project, rep):
        if not caps:
            rep.check(not tag.startswith(MUST), tag, 'the statement is refused: %r' % (
                [str(v)[:120] for v, s in outs if isinstance(v, Exc)][:2],))
            continue
        for cap in caps:
            rep.count('accepted')
            out = outputs(cap)
            if not rep.check(want is not None, tag, 'the statement should be refused, %r is sent' % (cap,)):
                continue
            if not rep.check(len(out) == len(want), tag + ': outputs', '%d expressions for %d asked for: %r' % (
                    len(out), len(want), out)):
                continue
            bad = differs(skeleton(js), skeleton(back(cap, phys)))
            rep.check(bad is None, tag + ': clauses', 'the statement asks for %s' % (bad,), '%s: clauses kept' % tag)
            srcs = sources(cap.get('from'))
            for (t, c, f), e in zip(want, out):
                rep.count('output_expressions')
                r = resolve(e, phys)
                if not rep.check(r is not None, tag + ': expression', '%r is sent for %s' % (e, (t, c, f))):
                    continue
                rf, rt, rc, label = r
                rep.check(rf == f, tag + ': function', '%s(%s) is sent as %r' % (f, c, e))
                if c is None:
                    continue
                plain = meta[DB][t]['columns'][c]['plaintext']
                ok = (rc == c and rt is None) if plain else (rc == c and rt == t)
                rep.check(ok, tag + ': column', '%s.%s is read from %r' % (t, c, e), '%s: %s.%s -> %r' % (tag, t, c, e))
                if not plain and f != 'count':
                    rep.check(label in expected_label(meta, t, c, f), tag + ': cipher column',
                              '%s(%s) is computed on the %s column' % (f, c, label))
                inner = next(iter(e.values())) if isinstance(e, dict) else e
                if isinstance(inner, str) and '.' in inner:
                    q = inner.rsplit('.', 1)[0]
                    rep.check(srcs.get(q) in (t, '?'), tag + ': qualifier',
                              '%r is qualified with %s, FROM offers %s' % (e, q, srcs))
            for p, leaf in leaves(cap.get('from')):
                if leaf in ('t', 's', 'u'):
                    rep.bad(tag + ': table', 'the logical table name is sent: %r' % (cap,))
    sort_columns(project, rep)
    rep.need('accepted', 60)
    rep.need('output_expressions', 150)


def sort_columns(project, rep):
    """ORDER BY of an encrypted column reads the column whose ciphertexts are in the order of the values, or is refused"""
    meta = schema()
    gw = Gateway(project, meta)
    phys = physical(meta)
    for t, info in meta[DB].items():
        for c, ci in info['columns'].items():
            if ci['plaintext']:
                continue
            for tag, o in (('', {'value': c}), (' DESC', {'value': c, 'sort': 'desc'}), (' after another', [{'value': 'pv'}, {'value': c}])):
                n = len(gw.captured)
                gw.rewrite({'select': {'value': 'pv'}, 'from': t, 'orderby': o})
                rep.count('sorts')
                for cap in gw.captured[n:]:
                    got = cap.get('orderby')
                    last = got[-1] if isinstance(got, list) and got else got
                    name = last.get('value') if isinstance(last, dict) else None
                    r = phys.get(str(name).split('.')[-1])
                    rep.check(r == (t, c, 'order-preserving'), 'ORDER BY%s: %s' % (tag, '+'.join(ci['enc-cols'])),
                              'ORDER BY %s is sent as %r' % (c, got))
    rep.need('sorts', 20)


def back(x, phys):
    """the sent tree with physical names replaced by the logical names they stand for"""
    if isinstance(x, dict):
        return {k: back(v, phys) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [back(v, phys) for v in x]
    if isinstance(x, str):
        return '.'.join(PHYS_TABLES.get(w, phys[w][1] if w in phys else w) for w in x.split('.'))
    return x


def skeleton(x, top=True):
    """the parts of a statement other than its select list (checked by itself) and its conditions (C05)"""
    if isinstance(x, dict):
        if set(x) == {'value'}:
            return skeleton(x['value'], False)
        r = {}
        for k, v in x.items():
            if k in ('where', 'having') or (k, v) == ('sort', 'asc'):
                continue        # ascending is the default
            k = JOINS.get(k, k)
            if k in ('select', 'select_distinct'):
                r[k] = '...' if top or v == '*' or isinstance(v, list) and not isinstance(v[0], dict) else skeleton(v, False)
                if not top:
                    r[k] = [skeleton(y, False) for y in v] if isinstance(v, list) else '...' if v == '*' else skeleton(v, False)
                continue
            r[k] = skeleton(v, False)
        return r
    if isinstance(x, (list, tuple)):
        return [skeleton(v, False) for v in x]
    return x


def differs(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in b:
                return '%s without %s' % (path or 'it', k)
            if k not in a:
                return '%s of its own at %s' % (k, path or 'the top')
            d = differs(a[k], b[k], path + '/' + str(k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b)):
            d = differs(p, q, '%s/%d' % (path, i))
            if d:
                return d
        return None
    if path.endswith(('/select', '/select_distinct')) and isinstance(a, str) and a == '...' and isinstance(b, list):
        return None
    return None if a == b else '%r instead of %r at %s' % (b, a, path)


def sources(fr):
    """qualifier usable in the statement -> logical table it stands for"""
    res = {}
    for x in (fr if isinstance(fr, list) else [fr]):
        if isinstance(x, dict):
            for k in list(x):
                if 'join' in str(k):
                    x = x[k]
                    break
        if isinstance(x, str):
            res[x] = PHYS_TABLES.get(x, 'unknown')
        elif isinstance(x, dict) and 'name' in x:
            res[x['name']] = '?'
    return res


def select_lists(pl, v, s, rep):
    """the three lists recorded by the rewriter, found through the value returned to the client and the decryptor"""
    return v[1][0], v[1][1]


def check_C07(project, rep):
    """names and types handed to the client describe the outputs, one for one."""
    for pl, meta, phys, tag, js, want, outs, caps in runs(project, rep):
        for v, s in outs:
            if isinstance(v, Exc) or not caps or want is None:
                rep.ok()
                continue
            got = lower(v, s)
            if not rep.check(isinstance(got, (list, tuple)) and len(got) == 2 and len(got[1]) == 2, tag,
                             'the answer is %r' % (got,)):
                continue
            names, types = got[1]
            rep.count('answers')
            if not rep.check(len(names) == len(types) == len(want), tag + ': header',
                             'the answer has %d names and %d types for %d outputs: %r' % (
                                 len(names), len(types), len(want), got[1])):
                continue
            for (t, c, f), name, typ in zip(want, names, types):
                rep.count('header_entries')
                if c is not None and f != 'count':
                    rep.check(str(name).split('.')[-1] == c, tag + ': name', '%s.%s is labelled %s' % (t, c, name),
                              '%s: %s.%s -> %s %s' % (tag, t, c, name, typ))
                    rep.check(typ == meta[DB][t]['columns'][c]['type'], tag + ': type', '%s.%s is typed %s' % (t, c, typ))
                elif f == 'count':
                    rep.check(typ == 'int', tag + ': type', 'count is typed %s' % (typ,))
    rep.need('answers', 60)
    rep.need('header_entries', 150)


def decoded(pl, term, typ):
    k = ('dec', term, typ)
    if k not in pl._starts:
        st = pl.states()[0]
        f = pl.I.mod_get(CRYPTO_MOD, 'decode', st)
        pl._starts[k] = {x for x, _ in pl.I.call(f, [term, K(typ)], {}, st, None, None) if not isinstance(x, Exc)}
    return pl._starts[k]


def dec_terms(v, acc):
    if isinstance(v, T):
        if v.op == 'dec':
            acc.append(v)
        for a in v.args:
            if isinstance(a, V):
                dec_terms(a, acc)
            elif isinstance(a, frozenset):
                for b in a:
                    dec_terms(b, acc)
    elif isinstance(v, Tup):
        for a in v.items:
            dec_terms(a, acc)
    return acc


def check_cell(pl, rep, meta, phys, tag, expr, want, cell, val):
    """`val` is what the client gets for the `cell` returned by the backend for output `expr`"""
    t, c, f = want
    r = resolve(expr, phys)
    if r is None:
        return
    label = r[3]
    val = val if isinstance(val, V) else lift_const(val)
    rep.count('cells')
    if label == 'plaintext':
        rep.check(val == cell, tag + ': plaintext cell', '%s: the backend value %r becomes %r' % (want, cell, val),
                  '%s: %r -> %r' % (tag, cell, val))
        return
    if r[2] != c or (r[1] or t) != t:
        rep.bad(tag + ': cell', '%r is sent for %s' % (expr, want))
        return
    typ = meta[DB][t]['columns'][c]['type']
    if val == NONE and typ == 'double' and NONE in decoded(pl, Sym('any', 'str'), typ):
        return      # outside the range `encode` is defined on
    ds = dec_terms(val, [])
    if not rep.check(len(set(ds)) == 1, tag + ': %s cell' % label, '%s: the client gets %r' % (want, val)):
        return
    d = ds[0]
    cls, key, arg = d.args
    rep.check(cls.v == LABELS[label][0] and syms_in(key) == set(keyset(t, c, label)) and arg == cell,
              tag + ': %s cell' % label, '%s: written by %s keyed %s, read by %s keyed %s from %r' % (
                  want, LABELS[label][0], sorted(keyset(t, c, label)), cls.v, sorted(syms_in(key)), arg),
              '%s: %r decrypted by %s keyed %s' % (tag, cell, cls.v, sorted(syms_in(key))))
    rep.check(val in decoded(pl, d, typ), tag + ': %s decoding' % label,
              '%s: the decrypted %s is returned as %r' % (want, typ, val))


def lift_const(x):
    return x if isinstance(x, V) else K(x) if not isinstance(x, (list, tuple, dict)) else Tup([lift_const(y) for y in x])


def check_C08(project, rep):
    for pl, meta, phys, tag, js, want, outs, caps in runs(project, rep):
        if not caps or want is None:
            continue
        out = outputs(caps[-1])
        if len(out) != len(want):
            rep.bad(tag, '%d expressions for %d columns' % (len(out), len(want)))
            continue
        n = 0
        for v, s in outs:
            if isinstance(v, Exc):
                continue
            got = lower(v, s)
            rows = got[0]
            if not rep.check(isinstance(rows, list) and len(rows) == 1 and len(rows[0]) == len(want), tag + ': row',
                             'one row of %d cells comes back as %r' % (len(want), rows)):
                continue
            n += 1
            for e, w, cell, val in zip(out, want, [Sym('cell%d' % i, 'str') for i in range(len(out))], rows[0]):
                check_cell(pl, rep, meta, phys, tag, e, w, cell, val)
        rep.check(n > 0, tag, 'no path returns the row: %r' % ([str(v)[:100] for v, s in outs][:2],))
    rep.need('cells', 150)


def check_C09(project, rep):
    """rows, order, NULL and plaintext values of the answer"""
    meta = schema()
    pl = Pipeline(project, meta)
    phys = physical(meta)
    V_ = lambda x: {'value': x}
    js = {'select': [V_('v'), V_('pv'), V_('i'), V_('pi')], 'from': 't'}
    want = [('t', 'v', None), ('t', 'pv', None), ('t', 'i', None), ('t', 'pi', None)]
    kinds = ['str', 'str', 'str', 'int']
    for n in (0, 1, 2, 3):
        rows = [tuple(Sym('r%dc%d' % (i, j), kinds[j]) for j in range(4)) for i in range(n)]
        m = len(pl.captured)
        for v, s in pl.invoke(js, rows=rows):
            rep.count('paths')
            if not rep.check(not isinstance(v, Exc), '%d rows' % n, 'the request fails: %r' % (v,)):
                continue
            got = lower(v, s)[0]
            if not rep.check(isinstance(got, list) and len(got) == n, '%d rows: count' % n,
                             '%d rows come back as %r' % (n, got)):
                continue
            out = outputs(pl.captured[m])
            for r, g in zip(rows, got):
                rep.count('rows')
                if rep.check(isinstance(g, (tuple, list)) and len(g) == 4, '%d rows: width' % n, repr(g)):
                    for e, w, cell, val in zip(out, want, r, g):
                        check_cell(pl, rep, meta, phys, '%d rows' % n, e, w, cell, val)
    # NULL in every column
    for nul in range(4):
        row = tuple(None if j == nul else Sym('c%d' % j, kinds[j]) for j in range(4))
        for v, s in pl.invoke(js, rows=[row]):
            rep.count('paths')
            if not rep.check(not isinstance(v, Exc), 'NULL in a %s column' % want[nul][1], 'fails: %r' % (v,)):
                continue
            got = lower(v, s)[0]
            rep.check(isinstance(got, list) and len(got) == 1 and len(got[0]) == 4 and got[0][nul] is None,
                      'NULL in column %s' % want[nul][1], 'comes back as %r' % (got,), 'NULL stays NULL in %s' % want[nul][1])
            for j in range(4):
                if j != nul and isinstance(got, list) and len(got) == 1 and len(got[0]) == 4:
                    rep.check(lift_const(got[0][j]) != NONE, 'value beside a NULL', '%r' % (got,))
    # rows of NULLs, equal rows, falsy values
    for tag, rows in (('rows of NULL', [(None,) * 4] * 2), ('a row of NULL among others', [
            tuple(Sym('r%dc%d' % (i, j), kinds[j]) if i != 1 else None for j in range(4)) for i in range(3)]),
            ('equal rows', [tuple(Sym('c%d' % j, kinds[j]) for j in range(4))] * 3),
            ('falsy values', [(Sym('a', 'str'), '', Sym('b', 'str'), 0)]), ('only falsy values', [(None, '', None, 0)])):
        for v, s in pl.invoke(js, rows=rows):
            rep.count('paths')
            if not rep.check(not isinstance(v, Exc), tag, 'fails: %r' % (v,)):
                continue
            got = lower(v, s)[0]
            if not rep.check(isinstance(got, list) and len(got) == len(rows), tag + ': count',
                             '%d rows come back as %r' % (len(rows), got), '%s: %d rows' % (tag, len(rows))):
                continue
            for r, g in zip(rows, got):
                for j in range(4):
                    if want[j][1] in ('pv', 'pi'):
                        rep.check(lift_const(g[j]) == lift_const(r[j]), tag + ': plain value', '%r becomes %r' % (r[j], g[j]))
                    elif r[j] is None:
                        rep.check(g[j] is None, tag + ': NULL', 'NULL becomes %r' % (g[j],))
                    else:
                        ds = dec_terms(lift_const(g[j]), [])
                        rep.check({d.args[2] for d in ds} == {r[j]}, tag + ': value', '%r becomes %r' % (r[j], g[j]))
    # the client asked for ciphertext
    info = dict(INFO, ciphertext=True)
    row = tuple(Sym('c%d' % j, kinds[j]) for j in range(4))
    for v, s in pl.invoke(js, rows=[row], info=info):
        rep.count('paths')
        if rep.check(not isinstance(v, Exc), 'ciphertext request', 'fails: %r' % (v,)):
            rep.check(lower(v, s)[0] == [row], 'ciphertext request', 'a request for ciphertext returns %r' % (
                lower(v, s)[0],), 'ciphertext=True returns the backend rows')
    info = dict(INFO, ciphertext=False)
    for v, s in pl.invoke(js, rows=[row], info=info):
        rep.count('paths')
        if rep.check(not isinstance(v, Exc), 'cleartext request', 'fails: %r' % (v,)):
            rep.check(bool(dec_terms(lift_const(lower(v, s)[0]), [])), 'cleartext request', 'returns %r' % (lower(v, s)[0],))
    # plaintext values of every type the driver can return
    st = pl.states()[0]
    for kind in ('int', 'float', 'str', 'bytes', 'bool'):
        x = Sym('p', kind)
        for v, s in pl.invoke({'select': V_('pv'), 'from': 't'}, rows=[(x,)]):
            rep.count('paths')
            ok = not isinstance(v, Exc) and lower(v, s)[0] == [(x,)]
            rep.check(ok, 'plaintext %s' % kind, 'a plaintext %s value comes back as %r' % (
                kind, v if isinstance(v, Exc) else lower(v, s)[0]))
    # dates, times and durations are values of their own: only a moment has a text form
    for kind in ('date', 'time', 'timedelta'):
        def fetch(I, args, kw, st, node, fr, kind=kind):
            one = st.alloc(HInst(Ext('datetime.' + kind), {}))
            return [(st.list([Tup([one])]), st)]
        pd = Pipeline(project, meta)
        pd.states()
        pd.I.intr['.fetchall'] = fetch
        for v, s in pd.invoke({'select': V_('pv'), 'from': 't'}):
            rep.count('paths')
            got = v if isinstance(v, Exc) else s.heap[pd.I.getitem(v, K(0), s, None, None)[0][0].oid].items
            cell = None if isinstance(v, Exc) or len(got) != 1 else pd.I.getitem(got[0], K(0), s, None, None)[0][0]
            same = isinstance(cell, Ref) and getattr(s.heap[cell.oid], 'cls', None) == Ext('datetime.' + kind)
            rep.check(same, 'plaintext %s' % kind, 'a plaintext %s value comes back as %r' % (kind, cell or got),
                      'a %s value comes back as it is' % kind)
    rep.need('rows', 6)
    rep.need('cells', 24)
