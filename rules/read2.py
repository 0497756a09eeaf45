"""S05: the parts the grammar labels all arrive in the tree.  The actions of the grammar (found by the labels they take, not
by name) are interpreted on every combination of present and absent parts, with values Python takes for false among them."""
from .read import *

VALUES = {'a': 'a', '1': 1, 's': {'literal': 's'}, '0': 0, '0.0': 0.0, 'false': False, "''": {'literal': ''},
          'null': {'null': {}}, 'true': True}
FALSY = ('0', '0.0', 'false', "''", 'null')


class Tok:
    """builds tokens in a state"""
    def __init__(self, g):
        self.g, self.st = g, g.st.copy()

    def make(self, cls, *args):
        r = self.g.I.call(self.g.I.mod_get(LIB, cls, self.st), [lift(a, self.st) for a in args], {}, self.st, None, None)
        if len(r) != 1 or isinstance(r[0][0], Exc):
            raise AnalysisError('cannot build %s: %r' % (cls, r[:1]))
        self.st = r[0][1]
        return r[0][0]

    def value(self, name):
        """an operand as the parts before hand it over"""
        if name == 'null':
            return self.g.I.mod_get('sql_parsing.utils', 'SQL_NULL', self.st)
        return lift(VALUES[name], self.st)

    def token(self, name):
        """an expression: a group around the operand"""
        return self.results([self.value(name)])

    def results(self, xs):
        return self.make('ParseResults', None, 0, 0, [lift(x, self.st) for x in xs], None)

    def named(self, d, typ=None):
        v = self.make('Named', d)
        if typ is not None:
            o = self.st.heap[v.oid].copy() if hasattr(self.st.heap[v.oid], 'copy') else self.st.heap[v.oid]
            o.attrs = dict(o.attrs, type=self.make('El', 'group', [], typ))
            self.st.heap[v.oid] = o
        return v

    def run(self, node, tok):
        """-> value of the action; None when it refuses"""
        out = self.g.act(node.action, tok, self.st)
        if len(out) != 1:
            raise AnalysisError('an action of the grammar has %d outcomes: %s' % (len(out), [repr(lower(v, s))[:200] for v, s in out[:3]]))
        v, self.st = out[0]
        self.error = v if isinstance(v, Exc) else None
        return None if isinstance(v, Exc) else tok if v == NONE else v

    def tree(self, v):
        out = self.g.parse(v, self.st)
        if len(out) != 1:
            raise AnalysisError('parse_mysql has %d outcomes' % len(out))
        return None if isinstance(out[0][0], Exc) else lower(*out[0])


def labels(g, n):
    res, seen = set(), set()

    def go(x):
        if not isinstance(x, Node) or x.oid in seen:
            return
        seen.add(x.oid)
        if x.kind == 'key':
            res.add(g.st.heap[x.ref.oid].attrs['key'].v)
        elif x.kind != 'act':
            for a in x.args:
                for b in a if isinstance(a, (list, tuple)) else [a]:
                    go(b)
    for a in n.args:
        for b in a if isinstance(a, (list, tuple)) else [a]:
            go(b)
    return res


def find(g, want, without=()):
    res = [n for n in g.root.walk() if n.kind == 'act' and set(want) <= labels(g, n) and not set(without) & labels(g, n)]
    if not res:
        raise AnalysisError('no part of the grammar with the labels %s' % ', '.join(want))
    return res


def subsets(names):
    for n in range(len(names) + 1):
        yield from itertools.combinations(names, n)


SETS = ('union', 'union_all', 'except', 'intersect', 'minus')
ORDERS = [{'value': 'b'}, {'value': 'b', 'sort': 'desc'}, [{'value': 'b'}, {'value': 'c', 'sort': 'desc'}], {'value': 1}]
LIMITS, OFFSETS, FETCHES = [0, 5, [0, 5], [3, 0]], [0, 7], [0, 2]


def flat(j):
    """UNION and UNION ALL chains of one kind are associative"""
    if isinstance(j, dict) and len(j) == 1 and next(iter(j)) in ('union', 'union_all'):
        op, xs = next(iter(j.items()))
        acc = []
        for x in map(flat, xs):
            acc.extend(x[op] if isinstance(x, dict) and list(x) == [op] else [x])
        return {op: acc}
    if isinstance(j, dict):
        return {k: flat(v) for k, v in j.items()}
    if isinstance(j, (list, tuple)):
        return [flat(x) for x in j]
    return j


def outer_clauses():
    for o in [None] + ORDERS:
        for l in [None] + LIMITS:
            for f in [None] + OFFSETS:
                if sum(x is not None for x in (o, l, f)) < 3 or (o == ORDERS[0] and f == 0):
                    yield {k: v for k, v in (('orderby', o), ('limit', l), ('offset', f)) if v is not None}
    for f in FETCHES:
        yield {'fetch': f}
        yield {'fetch': f, 'orderby': ORDERS[0]}


def verdict(rep, what, got, allowed, refusable=False):
    ok = got is None if not allowed else (got is None and refusable) or \
        any(same(sorted_(flat(got)), sorted_(flat(a))) for a in allowed)
    rep.check(ok, what, 'is read as %r, it means %r' % (got, allowed[0] if allowed else 'nothing: it has to be refused'))


def sorted_(j):
    if isinstance(j, dict):
        return {k: sorted_(j[k]) for k in sorted(j, key=str)}
    if isinstance(j, (list, tuple)):
        return [sorted_(x) for x in j]
    return j


def check_unions(g, rep, tier):
    node = find(g, ['union', 'orderby'])[0]
    lab = set()
    for x in node.walk():
        if x.kind == 'key':
            lab.add(g.st.heap[x.ref.oid].attrs['key'].v)
    for k in ('limit', 'offset', 'orderby', 'where', 'groupby', 'having', 'from', 'select', 'select_distinct', 'with'):
        rep.check(k in lab, 'clause %s' % k, 'the grammar does not pass on the clause %s' % k)
    single = {'select': {'value': 'a'}, 'from': 't', 'where': {'eq': ['a', 0]}}
    others = [{'select': {'value': 'b'}, 'from': 's'}, {'select_distinct': {'value': 'c'}, 'from': 'r', 'limit': 0},
              {'select': {'value': 'd'}, 'from': 'q', 'orderby': {'value': 'd'}, 'limit': 2}]
    for cl in outer_clauses():
        tag = ', '.join('%s %s' % (k, v) for k, v in cl.items()) or 'no clause'
        # one SELECT
        t = Tok(g)
        tok = t.named({'union': t.named(single, 'unordered sql'), **cl})
        v = t.run(node, tok)
        rep.count('queries')
        verdict(rep, 'SELECT with %s' % tag, v and t.tree(v), [{**single, **cl}])
        # a query in parentheses
        for name, q in (('select', single), ('distinct', {'select_distinct': {'value': 'c'}, 'from': 'r'}),
                        ('limited', others[1]), ('ordered', others[2]), ('union', {'union': [single, others[0]]}),
                        ('with', {**single, 'with': {'name': 'x', 'value': others[0]}}),
                        ('union in order', {'from': {'union': [single, others[0]]}, 'orderby': {'value': 'a'}, 'limit': 0})):
            t = Tok(g)
            v = t.run(node, t.named({'union': q, **cl}))
            rep.count('queries')
            clash = set(q) & {'orderby', 'limit', 'offset', 'fetch'}
            if not cl:
                allowed = [q]
            elif clash:
                allowed = [{'from': q, **cl}]
            elif 'select' in q or 'select_distinct' in q:
                allowed = [{**q, **cl}, {'from': q, **cl}]
            else:
                allowed = [{'from': q, **cl}]
            verdict(rep, '(%s) with %s' % (name, tag), v and t.tree(v), allowed, bool(cl))
        # set operations
        for ops in [('union',), ('union_all',), ('except',), ('union', 'union'), ('union', 'union_all'), ('union_all', 'union'),
                    ('union_all', 'union_all'), ('except', 'except'), ('except', 'union'), ('union', 'except'),
                    ('union', 'union', 'union'), ('union', 'union_all', 'union')]:
            if len(ops) > 1 and len(cl) > 1 and tier != 'thorough':
                continue
            for first in (single, {'union': [single, others[0]]}, {'union_all': [single, others[0]]}, others[1]):
                if first is not single and (len(ops) != 1 or cl) and tier != 'thorough':
                    continue
                t = Tok(g)
                srcs = [first] + [others[i % 3] for i in range(len(ops))]
                parts = [lift(srcs[0], t.st)]
                for op, s in zip(ops, srcs[1:]):
                    parts += [t.results(op.split('_')), lift(s, t.st)]
                u = t.make('ParseResults', None, 0, 0, parts, None)
                o = t.st.heap[u.oid]
                o.attrs = dict(o.attrs, type=t.make('El', 'and', []))
                v = t.run(node, t.named({'union': u, **cl}))
                want = srcs[0]
                for op, s in zip(ops, srcs[1:]):
                    want = {op: [want, s]}
                rep.count('queries')
                verdict(rep, '%s of %s with %s' % (' '.join(ops), list(first)[0], tag), v and t.tree(v),
                        [{'from': want, **cl}] if cl else [want])
    rep.need('queries', 200)


def check_with(g, rep):
    cte = {'name': 'x', 'value': {'select': {'value': 'a'}, 'from': 's'}}
    for node in find(g, ['with', 'query']):
        for q in ({'select': {'value': 'a'}, 'from': 'x'}, {'union': [{'select': {'value': 'a'}, 'from': 'x'}] * 2},
                  {'select': {'value': 'a'}, 'from': 'x', 'limit': 0}):
            for outer in (None, 'with', 'with_recursive'):
                for inner in (None, 'with', 'with_recursive'):
                    t = Tok(g)
                    body = {**q, **({inner: {**cte, 'name': 'y'}} if inner else {})}
                    v = t.run(node, t.named({'query': t.results([body]), **({outer: cte} if outer else {})}))
                    want = {**body, **({outer: cte} if outer else {})}
                    rep.count('with')
                    verdict(rep, '%s before a query with %s' % (outer, inner), v and t.tree(v),
                            [want] if not (inner and outer) else [])
    rep.need('with', 20)


def check_case(g, rep):
    when = find(g, ['when', 'then'])
    for kind, nodes in (('CASE', find(g, ['case', 'else'], ['value'])), ('CASE x', find(g, ['case', 'else', 'value']))):
        for node in nodes:
            for n in (1, 2):
                for els in [None] + sorted(VALUES):
                    for cond, then in ([('a', x) for x in sorted(VALUES)] + [(x, '1') for x in sorted(VALUES)]
                                       if els in (None, '0', 'null') else [('a', '1')]):
                        for val in ('a', '0', 'null') if kind != 'CASE' else (None,):
                            t = Tok(g)
                            ws = []
                            for i in range(n):
                                c, th = (cond, then) if not i else ('1', 's')
                                w = t.run(when[0], t.named({'when': t.token(c), 'then': t.token(th)}))
                                ws.append(w)
                            if None in ws:
                                got = None
                            else:
                                d = {'case': t.results(ws)}
                                if els is not None:
                                    d['else'] = t.token(els)
                                if val is not None:
                                    d['value'] = t.token(val)
                                v = t.run(node, t.named(d))
                                got = v and t.tree(v)
                            conds = [cond, '1'][:n]
                            want = [{'when': VALUES[c] if val is None else {'eq': [VALUES[val], VALUES[c]]}, 'then': VALUES[th]}
                                    for c, th in zip(conds, [then, 's'])]
                            want += [VALUES[els]] if els is not None else []
                            rep.count('cases')
                            verdict(rep, '%s %s WHEN %s THEN %s, %d branches, ELSE %s' % (kind, val, cond, then, n, els), got,
                                    [{'case': want if len(want) > 1 else want[0]}])
    rep.need('cases', 100)


def check_joins(g, rep):
    for node in find(g, ['op', 'join', 'on']):
        for op in ('join', 'inner join', 'left join', 'left outer join', 'right join', 'cross join'):
            for name, src in (('table', None), ('alias', {'name': 'x', 'value': 's'}),
                              ('derived', {'name': 'x', 'value': {'select': {'value': 'a'}, 'from': 's'}})):
                for k, c in ((None, None), ('on', {'eq': ['a', 'b']}), ('on', 0), ('on', 1), ('on', False), ('on', 'a'),
                             ('using', 'a'), ('using', ['a', 'b'])):
                    t = Tok(g)
                    j = t.named(src) if src else t.results(['s'])
                    v = t.run(node, t.named({'op': t.results(op.split()), 'join': j, **({k: t.results([c]) if k == 'on' else c} if k else {})}))
                    rep.count('joins')
                    verdict(rep, '%s %s, %s %s' % (op, name, k, c), v and t.tree(v),
                            [{op: src or 's', **({k: c} if k else {})}])
    for node in find(g, ['value', 'with_ordinality']):
        for d in ({'value': 's'}, {'value': 's', 'name': 'x'}, {'value': {'select': {'value': 'a'}, 'from': 's'}, 'name': 'x'},
                  {'value': 's', 'name': {'x': ['a', 'b']}}):
            t = Tok(g)
            v = t.run(node, t.named(d))
            rep.count('joins')
            verdict(rep, 'table %s' % sorted(d), v and t.tree(v), [d if len(d) > 1 else d['value']])
    rep.need('joins', 50)


def check_calls(g, rep):
    nodes = [n for n in find(g, ['op', 'params']) if 'nulls' in labels(g, n)] or find(g, ['op', 'params'])
    node = nodes[0]
    for n in (0, 1, 2, 3):
        for xs in itertools.product(sorted(VALUES), repeat=n):
            if n == 3 and 'a' not in xs[1:] or n == 3 and xs[0] not in FALSY:
                continue
            for nulls in (None, 'ignore') if n < 2 else (None,):
                t = Tok(g)
                d = {'op': 'Fn'}
                if n:
                    d['params'] = t.results([t.token(x) for x in xs])
                else:
                    d['params'] = t.results([])
                if nulls:
                    d['nulls'] = nulls
                v = t.run(node, t.named(d))
                vals = [VALUES[x] for x in xs]
                want = {'fn': {} if not n else vals[0] if n == 1 else vals}
                if nulls:
                    want['nulls'] = nulls
                rep.count('calls')
                verdict(rep, 'f(%s)%s' % (', '.join(xs), ' with nulls' if nulls else ''), v and t.tree(v), [want])
    rep.need('calls', 90)


def check_values(g, rep):
    """rows of constants, from the row to the INSERT"""
    ins = find(g, ['table', 'columns', 'query'])[0]
    acts = [n for n in ins.walk() if n.kind == 'act' and isinstance(n.action, Fn)]
    found = []
    for n in acts:
        inner = n.args[0]
        while inner.kind in ('and', 'group') and inner.args and n.args[0].kind != 'list':
            nxt = [a for a in inner.args if isinstance(a, Node) and a.kind == 'list']
            if not nxt:
                break
            inner = nxt[0]
        row = inner.args[0] if inner.kind == 'list' and isinstance(inner.args[0], Node) else None
        if row is not None and row.kind == 'act' and isinstance(row.action, Fn) and \
                any(a.kind == 'list' for a in row.args[0].walk()):
            found.append((n, row))
    if not found:
        raise AnalysisError('no rows of values with an action in the grammar')
    vals, rows = [found[0][0]], [found[0][1]]
    for cols in (['p'], ['p', 'q']):
        domain = sorted(VALUES)
        for first in itertools.product(domain, repeat=len(cols)):
            if len(cols) == 2 and first[0] not in ('1', '0', 'null', 's', 'a') and first[1] not in ('1', '0'):
                continue
            for nrows in (1, 2):
                data = [list(first)] + [['1', 's'][:len(cols)]] * (nrows - 1)
                t = Tok(g)
                rs = []
                for r in data:
                    rs.append(t.run(rows[0], t.results([t.results([t.value(x)]) for x in r])))
                tree = None
                if None not in rs:
                    v = t.run(vals[0], t.results(rs))
                    if v is not None:
                        if isinstance(v, Ref) and isinstance(t.st.heap[v.oid], HList):
                            v = t.st.heap[v.oid].items[0]
                        v = t.run(ins, t.named({'columns': cols, 'table': 't', 'query': v}))
                        tree = v and t.tree(v)
                rep.count('rows')
                want = [[VALUES[x] for x in r] for r in data]
                got = read_rows(tree, cols)
                # a row that cannot be read is refused
                rep.check(tree is None or got is not None and same(got, want), 'INSERT of %s' % data,
                          'is read as %r' % (tree,))
                if tree is None:
                    rep.count('refused')
    rep.need('rows', 100)
    if rep.counts.get('refused', 0) > 60:
        raise AnalysisError('most rows are refused')


def read_rows(tree, cols):
    """the rows an INSERT tree stands for: constants as written, raw strings of row dictionaries as literals"""
    if not isinstance(tree, dict) or tree.get('insert') != 't':
        return None
    if isinstance(tree.get('values'), (list, tuple)):
        res = []
        for r in tree['values']:
            if not isinstance(r, dict) or sorted(r) != sorted(cols):
                return None
            res.append([{'literal': r[c]} if isinstance(r[c], str) else r[c] for c in cols])
        return res
    q = tree.get('query')
    if not isinstance(q, dict) or tree.get('columns') not in (cols, cols[0]):
        return None
    res = []
    for s in q.get('union_all', [q]):
        sel = s.get('select') if isinstance(s, dict) else None
        sel = [sel] if isinstance(sel, dict) else sel
        if not isinstance(sel, (list, tuple)) or not all(isinstance(x, dict) and set(x) == {'value'} for x in sel):
            return None
        res.append([x['value'] for x in sel])
    return res


def check_S05(project, rep):
    g = Grammar(project)
    check_unions(g, rep, rep.tier)
    check_with(g, rep)
    check_case(g, rep)
    check_joins(g, rep)
    check_calls(g, rep)
    check_values(g, rep)
