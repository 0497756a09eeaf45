"""SUM and AVG over an encrypted column: the statements the gateway runs for them (session variables computed by the
backend, then the client's SELECT with those variables in place of the aggregates) are read and evaluated over symbolic
tables: the cells of every output column are compared with the product of exactly the ciphertexts the client's
condition selects."""
import itertools
import re

from .execute import *
from .fmt import Fmt

class Cannot(Exception):
    """the text is outside the SQL this reader evaluates"""


class Syntax(Exception):
    """MySQL would refuse the text"""


TOK = re.compile(r"""\s+|(?P<str>'(?:[^'\\]|''|\\.)*'|"(?:[^"\\]|""|\\.)*")|(?P<var>@`?\w+`?)|(?P<num>\d+(?:\.\d+)?)"""
                 r"""|(?P<id>`[^`]+`|\w+|[\ue000-\uf8ff])|(?P<op>:=|<=>|<>|!=|<=|>=|[-+*/%(),.=<>;])""")


def tokens(text):
    i, out = 0, []
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise Cannot('character %r' % text[i])
        if m.lastgroup:
            w = m.group()
            if m.lastgroup == 'id':
                w = w.strip('`')
            out.append((m.lastgroup, w))
        i = m.end()
    while out and out[-1] == ('op', ';'):
        out.pop()
    return out


CLAUSES = ('WHERE', 'GROUP', 'HAVING', 'ORDER', 'LIMIT', 'OFFSET', 'UNION')


class P:
    """reader of one statement; `holes` maps a private character to the unknown text it stands for"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, *ws):
        k = self.t[self.i] if self.i < len(self.t) else ('end', '')
        return k[0] in ('id', 'op') and k[1].upper() in ws

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else 'end'

    def eat(self, *ws):
        if self.peek(*ws):
            self.i += 1
            return True
        return False

    def need(self, w):
        if not self.eat(w):
            raise Syntax('%s expected before %s' % (w, ' '.join(x[1] for x in self.t[self.i:self.i + 4]) or 'the end'))

    def next(self):
        if self.i >= len(self.t):
            raise Syntax('the text ends early')
        self.i += 1
        return self.t[self.i - 1]

    def statement(self):
        if self.eat('SET'):
            sets = []
            while True:
                k, v = self.next()
                if k != 'var':
                    raise Cannot('SET %s' % v)
                if not (self.eat('=') or self.eat(':=')):
                    raise Syntax('= expected')
                sets.append((v.replace('`', '').lower(), self.expr()))
                if not self.eat(','):
                    break
            r = ('set', sets)
        elif self.peek('SELECT'):
            r = self.select()
        else:
            raise Cannot('statement %s' % (self.t[:1],))
        if self.i != len(self.t):
            raise Syntax('text after the end: %s' % ' '.join(x[1] for x in self.t[self.i:self.i + 5]))
        return r

    def select(self):
        self.need('SELECT')
        cols = []
        while True:
            if self.eat('*'):
                cols.append((('star',), '*'))
            else:
                e = self.expr()
                name = None
                if self.eat('AS'):
                    name = self.next()[1]
                elif self.kind() == 'id' and not self.peek('FROM', *CLAUSES):
                    name = self.next()[1]
                cols.append((e, name or (e[1][-1] if e[0] == 'col' else None)))
            if not self.eat(','):
                break
        q = {'cols': cols, 'from': None, 'where': None, 'order': [], 'limit': None, 'offset': 0, 'sub': None}
        if self.eat('FROM'):
            if self.peek('('):
                self.need('(')
                q['sub'] = self.select()
                self.need(')')
                self.eat('AS')
                if self.kind() != 'id' or self.peek(*CLAUSES):
                    raise Syntax('a derived table needs a name')
                self.next()
            else:
                b, d = self.i, 0
                while self.i < len(self.t) and not (d == 0 and (self.peek(*CLAUSES) or self.peek(')'))):
                    d += 1 if self.peek('(') else -1 if self.peek(')') else 0
                    self.i += 1
                q['from'] = tuple(x[1] for x in self.t[b:self.i])
        if self.eat('WHERE'):
            q['where'] = self.cond()
        if self.peek('GROUP', 'HAVING', 'UNION'):
            q['grouped'] = self.next()[1].upper()
            d = 0
            while self.i < len(self.t) and not (d == 0 and (self.peek('ORDER', 'LIMIT') or self.peek(')'))):
                d += 1 if self.peek('(') else -1 if self.peek(')') else 0
                self.i += 1
        if self.eat('ORDER'):
            self.need('BY')
            while True:
                e = self.expr()
                down = self.eat('DESC')
                if not down:
                    self.eat('ASC')
                q['order'].append((e, down))
                if not self.eat(','):
                    break
        if self.eat('LIMIT'):
            q['limit'] = self.number()
            if self.eat('OFFSET'):
                q['offset'] = self.number()
            elif self.eat(','):
                q['offset'], q['limit'] = q['limit'], self.number()
        return ('select', q)

    def number(self):
        k, v = self.next()
        if k != 'num':
            raise Syntax('number expected at %s' % v)
        return int(v)

    # conditions: AND, OR, NOT, IS [NOT] NULL understood, everything else is an uninterpreted comparison
    def cond(self):
        a = [self.conj()]
        while self.eat('OR'):
            a.append(self.conj())
        return a[0] if len(a) == 1 else ('or', a)

    def conj(self):
        a = [self.neg()]
        while self.eat('AND'):
            a.append(self.neg())
        return a[0] if len(a) == 1 else ('and', a)

    def neg(self):
        if self.eat('NOT'):
            return ('not', self.neg())
        save = self.i
        if self.eat('('):
            try:
                c = self.cond()
                if self.eat(')') and (self.i >= len(self.t) or self.peek(')', 'AND', 'OR', *CLAUSES)):
                    return c
            except (Syntax, Cannot):
                pass
            self.i = save
        b, d, between = self.i, 0, False
        while self.i < len(self.t):
            if d == 0 and (self.peek(')', 'OR', *CLAUSES) or (self.peek('AND') and not between)):
                break
            if self.peek('AND'):
                between = False
            elif self.peek('BETWEEN'):
                between = True
            d += 1 if self.peek('(') else -1 if self.peek(')') else 0
            self.i += 1
        w = [x[1] for x in self.t[b:self.i]]
        if not w:
            raise Syntax('a condition is missing')
        u = [x.upper() for x in w]
        if u[-3:] == ['IS', 'NOT', 'NULL']:
            return ('not', ('null', P(self.t[b:self.i - 3]).expr()))
        if u[-2:] == ['IS', 'NULL']:
            return ('null', P(self.t[b:self.i - 2]).expr())
        return ('atom', tuple(w))

    # expressions
    def expr(self):
        if self.kind() == 'var' and self.i + 1 < len(self.t) and self.t[self.i + 1][1] == ':=':
            v = self.next()[1]
            self.next()
            return ('assign', v.replace('`', '').lower(), self.expr())
        a = self.term()
        while self.peek('+', '-'):
            o = self.next()[1]
            a = (o, a, self.term())
        return a

    def term(self):
        a = self.unit()
        while self.peek('*', '%', 'MOD'):
            o = self.next()[1]
            a = ('*' if o == '*' else '%', a, self.unit())
        return a

    def unit(self):
        k, v = self.next()
        if k == 'num':
            return ('num', int(v)) if '.' not in v else ('atom', v)
        if k == 'str':
            return ('str', v[1:-1])
        if k == 'var':
            return ('var', v.replace('`', '').lower())
        if (k, v) == ('op', '('):
            e = self.select() if self.peek('SELECT') else self.expr()
            self.need(')')
            return e
        if k == 'id':
            if len(v) == 1 and ord(v) >= 0xE000:
                return ('hole', v)
            if self.eat('('):
                f = v.upper()
                if self.peek('SELECT'):
                    raise Cannot('%s(SELECT' % f)
                if self.eat(')'):
                    return ('call', f, [])
                if f == 'COUNT' and self.eat('*'):
                    self.need(')')
                    return ('agg', 'COUNT', None)
                args = []
                distinct = self.eat('DISTINCT')
                while True:
                    save = self.i
                    try:
                        a = self.expr()
                        if not self.peek(',', ')'):
                            raise Syntax('')
                    except Syntax:
                        self.i = save
                        a = self.cond()
                    args.append(a)
                    if not self.eat(','):
                        break
                self.need(')')
                if f in ('COUNT', 'SUM', 'AVG', 'MIN', 'MAX', 'GROUP_CONCAT'):
                    return ('agg', f + (' DISTINCT' if distinct else ''), args[0])
                return ('call', f, args)
            if v.upper() == 'NULL':
                return ('nul',)
            path = [v]
            while self.eat('.'):
                path.append(self.next()[1])
            return ('col', tuple(path))
        raise Syntax('%r unexpected' % v)


class Session:
    """user variables, and a symbolic base table: n rows, which cells are NULL, which comparisons hold"""

    def __init__(self, base, rows, nulls, truth, holes):
        self.base, self.rows, self.nulls, self.truth, self.holes = base, rows, nulls, truth, holes
        self.vars = {}

    def run(self, stmt):
        if stmt[0] == 'set':
            for v, e in stmt[1]:
                self.vars[v] = self.scalar(e)
            return None
        return self.select(stmt[1])

    def scalar(self, e):
        return self.ev(e, None)

    def select(self, q):
        if q.get('grouped'):
            raise Cannot(q['grouped'])
        if q['sub'] is not None:
            names = [n for _, n in q['sub'][1]['cols']]
            src = [dict(zip([n and n.lower() for n in names], r)) for r in self.select(q['sub'][1])]
        elif q['from'] is not None:
            if q['from'] != self.base:
                raise Cannot('rows of another table: %s' % ' '.join(q['from']))
            src = list(range(self.rows))
        else:
            src = [{}]
        src = [r for r in src if q['where'] is None or self.holds(q['where'], r) is True]
        agg = any(self.aggregate(e) for e, _ in q['cols'])
        if agg:
            out = [([self.group(e, src) for e, _ in q['cols']], [])]
        else:
            out = [([self.ev(e, r) for e, _ in q['cols']], [self.ev(o, r) for o, _ in q['order']]) for r in src]
            for j in reversed(range(len(q['order']))):
                if q['order'][j][0][0] == 'col':
                    continue
                if not all(isinstance(k[j], int) for _, k in out):
                    if q['limit'] is not None and len(out) > q['limit'] and any(repr(c) != repr(out[0][0]) for c, _ in out):
                        raise Cannot('the order of the rows')
                    continue
                out.sort(key=lambda x: x[1][j], reverse=q['order'][j][1])
        out = [r for r, _ in out][q['offset']:]
        return out if q['limit'] is None else out[:q['limit']]

    def aggregate(self, e):
        if e[0] == 'agg':
            return True
        return any(self.aggregate(x) for x in e[1:] if isinstance(x, tuple)) or \
            any(self.aggregate(y) for x in e[1:] if isinstance(x, list) for y in x if isinstance(y, tuple)) \
            if e[0] != 'select' else False

    def group(self, e, src):
        if e[0] == 'agg':
            if e[2] is None:
                return len(src)
            vals = [v for v in (self.ev(e[2], r) for r in src) if v is not None]
            if e[1] == 'COUNT':
                return len(vals)
            return ('agg', e[1], tuple(vals))
        if e[0] == 'call':
            return self.call(e[1], [self.group(a, src) for a in e[2]])
        if e[0] == 'col':
            return self.ev(e, src[0]) if src else None
        if e[0] in '*%+-':
            return self.op(e[0], self.group(e[1], src), self.group(e[2], src))
        return self.ev(e, None)

    def cell(self, path, r):
        if isinstance(r, dict):
            if path[-1].lower() not in r:
                raise Cannot('column %s' % '.'.join(path))
            return r[path[-1].lower()]
        if r is None:
            raise Cannot('column %s outside a row' % '.'.join(path))
        return None if (path[-1], r) in self.nulls else ('prod', (path[-1] + '#%d' % r,), None)

    def ev(self, e, r):
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'str':
            return ('text', (e[1],))
        if k == 'nul':
            return None
        if k == 'hole':
            return ('n', self.holes[e[1]])
        if k == 'var':
            return self.vars.get(e[1])
        if k == 'assign':
            self.vars[e[1]] = v = self.ev(e[2], r)
            return v
        if k == 'col':
            return self.cell(e[1], r)
        if k == 'select':
            rows = self.select(e[1])
            if len(rows) > 1:
                raise Syntax('a subquery with several rows')
            return rows[0][0] if rows else None
        if k == 'call':
            if e[1] == 'IF':
                return self.ev(e[2][1 if self.holds(e[2][0], r) is True else 2], r)
            return self.call(e[1], [self.ev(a, r) for a in e[2]])
        if k in ('*', '%', '+', '-'):
            return self.op(k, self.ev(e[1], r), self.ev(e[2], r))
        if k in ('null', 'not', 'and', 'or', 'atom'):
            h = self.holds(e, r)
            return None if h is None else int(h)
        raise Cannot('expression %s' % k)

    def call(self, f, a):
        if f == 'CONCAT':
            if None in a:
                return None
            out = []
            for x in a:
                out += list(x[1]) if isinstance(x, tuple) and x[0] == 'text' else [str(x) if isinstance(x, int) else x]
            return ('text', tuple(out))
        if f in ('IFNULL', 'COALESCE'):
            return next((x for x in a if x is not None), None)
        if f == 'NULLIF':
            return None if a[0] == a[1] else a[0]
        if f == 'MOD':
            return self.op('%', *a)
        if f == 'CAST' or f == 'CONVERT':
            raise Cannot(f)
        raise Cannot('function %s' % f)

    def op(self, o, a, b):
        if a is None or b is None:
            return None
        if isinstance(a, int) and isinstance(b, int):
            if o == '%':
                return a % b if b else None
            return a * b if o == '*' else a + b if o == '+' else a - b
        if o == '*':
            ms, mod = [], None
            for x in (a, b):
                if isinstance(x, int):
                    if x != 1:
                        ms.append(str(x))
                elif x[0] == 'prod':
                    ms += x[1]
                    if x[2] is not None and mod not in (None, x[2]):
                        raise Cannot('two moduli')
                    mod = mod or x[2]
                else:
                    raise Cannot('a product of %s' % x[0])
            return ('prod', tuple(sorted(ms)), mod)
        if o == '%' and isinstance(b, tuple) and b[0] == 'n':
            if isinstance(a, int):
                a = ('prod', () if a == 1 else (str(a),), None)
            if a[0] == 'prod' and a[2] in (None, b[1]):
                return ('prod', a[1], b[1])
        return ('other', o, a, b)

    def holds(self, c, r):
        k = c[0]
        if k == 'null':
            return self.ev(c[1], r) is None
        if k == 'not':
            v = self.holds(c[1], r)
            return None if v is None else not v
        if k in ('and', 'or'):
            vs = [self.holds(x, r) for x in c[1]]
            if (k == 'or') in [v for v in vs if v is not None]:
                return k == 'or'
            return None if None in vs else k == 'and'
        if k == 'atom' and not isinstance(r, dict):
            return self.truth.get((c[1], r), True)
        raise Cannot('condition %s' % k)


def atoms(c, out):
    if c is None:
        return out
    if c[0] == 'atom':
        out.append(c[1])
    elif c[0] in ('and', 'or'):
        for x in c[1]:
            atoms(x, out)
    elif c[0] == 'not':
        atoms(c[1], out)
    return out


# ---------------------------------------------------------------- the statements of the client
def agg_schema():
    m = schema()
    t = m[DB]['t']['columns']
    t['ib'] = column('ib', 'int', ciphers=('order-preserving', 'symmetric', 'arithmetic'))
    return m


def client():
    """(tag, tree, [(physical column, aggregate) | None per output column], answerable)"""
    V = lambda x: {'value': x}
    eq = lambda c, v: {'eq': [c, {'literal': v}]}
    A, B = 'phys_ia_arithmetic', 'phys_ib_arithmetic'
    lists = [('SUM', V({'sum': 'ia'}), [(A, 'SUM')]), ('AVG', V({'avg': 'ia'}), [(A, 'AVG')]),
             ('SUM and AVG', [V({'sum': 'ia'}), V({'avg': 'ia'})], [(A, 'SUM'), (A, 'AVG')]),
             ('AVG and SUM of two columns', [V({'avg': 'ia'}), V({'sum': 'ib'})], [(A, 'AVG'), (B, 'SUM')]),
             ('SUM of two columns', [V({'sum': 'ib'}), V({'sum': 'ia'})], [(B, 'SUM'), (A, 'SUM')]),
             ('AVG of two columns', [V({'avg': 'ib'}), V({'avg': 'ia'})], [(B, 'AVG'), (A, 'AVG')]),
             ('SUM among aggregates', [V({'count': '*'}), V({'sum': 'ia'}), V({'max': 'i'})],
              [('', 'COUNT'), (A, 'SUM'), ('phys_i_order-preserving', 'MAX')]),
             ('SUM of a qualified column', [V({'sum': 't.ia'}), V({'avg': 't.ia'})], [(A, 'SUM'), (A, 'AVG')])]
    wheres = [('', None), (' with a condition', eq('pv', 'a')),
              (' with two conditions', {'or': [eq('pv', "it's"), {'gt': ['pi', 3]}]}),
              (' with AND/OR', {'and': [{'or': [eq('pv', 'a'), {'lt': ['pi', 2]}]}, {'exists': 'pi'}]}),
              (' on an encrypted column', eq('v', 'x')), (' IS NULL', {'missing': 'pi'}),
              (' with a constant that looks like the aggregate', eq('pv', 'SUM(%s)' % A)),
              (' with a constant that looks like SQL', eq('pv', "x FROM y AVG(%s) limit 1" % A))]
    for lt, cols, want in lists:
        for wt, w in wheres:
            js = {'select': cols, 'from': 't'}
            if w is not None:
                js['where'] = w
            yield lt + wt, js, want, True
    base = lists[0][1]
    js = lambda **k: dict({'select': base, 'from': 't'}, **k)
    yield 'SUM LIMIT 5', js(limit=5), lists[0][2], True
    yield 'SUM ORDER BY', js(orderby={'value': 'pv'}), lists[0][2], None
    yield 'AVG ORDER BY LIMIT', dict(js(orderby={'value': 'pv', 'sort': 'desc'}, limit=2), select=lists[1][1]), \
        lists[1][2], None
    for tag, k in (('GROUP BY', {'groupby': {'value': 'pv'}}), ('GROUP BY two', {'groupby': [{'value': 'pv'}, {'value': 'pi'}]}),
                   ('GROUP BY encrypted', {'groupby': {'value': 'v'}}),
                   ('GROUP BY HAVING', {'groupby': {'value': 'pv'}, 'having': {'gt': [{'count': '*'}, 3]}}),
                   ('HAVING', {'having': {'gt': [{'count': '*'}, 3]}}),
                   ('LIMIT 0', {'limit': 0}), ('OFFSET', {'limit': 5, 'offset': 1})):
        for lt, cols, want in (lists[0], lists[1], ('a column and SUM', [V('pv'), V({'sum': 'ia'})], None)):
            j = {'select': cols, 'from': 't'}
            j.update(k)
            yield lt + ' ' + tag, j, want, False
            if 'where' not in j:
                yield lt + ' ' + tag + ' with a condition', dict(j, where=eq('pv', 'a')), want, False


class Agg(Pipeline):
    """the request path with the real formatter behind it (names and constants are concrete; keys and cells are not)"""

    def __init__(self, project):
        super().__init__(project, agg_schema())
        self.fmt = None
        self.project = project
        self.I.intr['cipher.encrypt'] = lambda I, a, k, st, n, fr: [(K('ENC[%s]' % (a[2].v if isinstance(a[2], K) else '?')), st)]

    def _enc(self, I, a, k, st, n, fr):
        return [(K('ENC-%s' % (a[2].v if isinstance(a[2], K) else 'x')), st)]

    def _format(self, I, args, kw, st, node, fr):
        super()._format(I, args, kw, st, node, fr)
        if self.fmt is None:
            self.fmt = Fmt(self.project, how=[(tuple(args[1:]), tuple(kw.items()))])
        f = self.fmt
        f.args = [(tuple(args[1:]), tuple(kw.items()))]
        rs = f.texts(lower(args[0], st))
        out = []
        for v, s in rs:
            if isinstance(v, Exc):
                out.append((Exc(st.alloc(HInst(Ext('builtins.Exception'), {'args': Tup()})), node), st))
            else:
                out.append((v, st))
        if len(out) != 1:
            raise AnalysisError('the formatter has %d outcomes for %r' % (len(out), lower(args[0], st)))
        return out


HOLE = 0xE000


def flat(v, holes):
    if isinstance(v, K):
        return str(v.v)
    if isinstance(v, T) and v.op == 'cat':
        return ''.join(flat(a, holes) for a in v.args)
    for h, x in holes.items():
        if x == v:
            return ' %s ' % h
    h = chr(HOLE + len(holes))
    holes[h] = v
    return ' %s ' % h


def square(col, meta):
    ci = next(c for c in meta[DB]['t']['columns'].values() if c['enc-cols'].get('arithmetic') == col)
    return ci['homomorphic_key']


# ---------------------------------------------------------------- regular expressions on known texts
def regex(ag):
    """re.search and its family, computed where pattern and text are known"""
    import re as R

    def match(m, st):
        if m is None:
            return NONE
        def method(name):
            def f(I, a, k, s, n, fr):
                if not all(isinstance(x, K) for x in a):
                    raise AnalysisError('Match.%s of an unknown group' % name)
                return [(lift(getattr(m, name)(*[x.v for x in a]), s), s)]
            nm = 'agg.match.%d.%s' % (len(ag.matches), name)
            ag.I.intr[nm] = f
            return Partial(Ext(nm), (), ())
        ag.matches.append(m)
        return st.alloc(HInst(Ext('re.Match'), {n: method(n) for n in ('span', 'start', 'end', 'group', 'groups')}))

    def fn(name):
        def f(I, a, k, st, n, fr):
            if all(isinstance(x, K) for x in a) and all(isinstance(x, K) for x in k.values()):
                v = getattr(R, name)(*[x.v for x in a], **{q: x.v for q, x in k.items()})
                if isinstance(v, R.Match) or v is None:
                    return [(match(v, st), st)]
                return [(lift(v, st), st)]
            return [(T('call', (K('re.' + name), NONE, Tup([I.freeze(x, st) for x in a]), Tup(), K(0))), st)]
        return f
    ag.matches = []
    for n in ('search', 'match', 'fullmatch', 'split', 'sub', 'findall'):
        ag.I.intr['re.' + n] = fn(n)


POINTS = ((7, 11), (13, 5), (1009, 4001), (3, 2))


def value(t, env):
    """the integer a term over the column's key stands for, None when it is something else"""
    if isinstance(t, K):
        return t.v if isinstance(t.v, int) else int(t.v) if isinstance(t.v, str) and t.v.isdigit() else None
    if isinstance(t, Sym):
        return env.get(t.name)
    if isinstance(t, T) and t.op in ('str', 'int'):
        return value(t.args[0], env)
    if isinstance(t, T) and t.op in ('*', '+', '-', '**') and len(t.args) == 2:
        a, b = value(t.args[0], env), value(t.args[1], env)
        if a is None or b is None or (t.op == '**' and not 0 <= b <= 8):
            return None
        return a * b if t.op == '*' else a + b if t.op == '+' else a - b if t.op == '-' else a ** b
    if isinstance(t, T) and t.op == 'call' and isinstance(t.args[0], K) and t.args[0].v in ('pow', 'builtins.pow', 'math.pow') \
            and isinstance(t.args[2], Tup) and len(t.args[2].items) == 2:
        return value(T('**', tuple(t.args[2].items)), env)
    return None


def is_square(t, col, meta):
    if t is None:
        return False
    a, b = square(col, meta)
    return all(value(t, {a.name: x, b.name: y}) == (x * y) ** 2 for x, y in POINTS)


def origin(e):
    """the session a statement runs on"""
    v = e.recv
    while isinstance(v, T) and v.op == 'call' and isinstance(v.args[0], K) and v.args[0].v in ('cursor', '__enter__'):
        v = v.args[1]
    return v


def tables(cols, ats):
    """(rows, null cells, truth of the comparisons) of every small table"""
    one = list(itertools.product(itertools.product((False, True), repeat=len(cols)),
                                 itertools.product((True, False, None), repeat=len(ats))))
    yield 0, frozenset(), {}
    sets = [[c] for c in one]
    if len(one) <= 64:
        sets += [list(c) for c in itertools.product(one, repeat=2)]
    else:
        sets += [[one[i], one[(i * 7 + 3) % len(one)]] for i in range(len(one))]
    sets += [[one[0], one[i], one[(i * 5 + 1) % len(one)]] for i in range(len(one))]
    for rows in sets:
        nulls = frozenset((c, r) for r, (ns, _) in enumerate(rows) for c, n in zip(cols, ns) if n)
        yield len(rows), nulls, {(a, r): t for r, (_, ts) in enumerate(rows) for a, t in zip(ats, ts)}


def nulltests(c, out):
    if c and c[0] == 'null' and c[1][0] == 'col':
        out.add(c[1][1][-1])
    elif c and c[0] in ('and', 'or'):
        for x in c[1]:
            nulltests(x, out)
    elif c and c[0] == 'not':
        nulltests(c[1], out)
    return out


def wheres(q, out):
    """the conditions of a statement and of the subqueries in it"""
    if isinstance(q, dict):
        if q['where'] is not None:
            out.append(q['where'])
        for v in q.values():
            wheres(v, out)
    elif isinstance(q, (list, tuple)):
        for v in q:
            wheres(v, out)
    return out


def expected(want, where, ses):
    sel = [r for r in range(ses.rows) if where is None or ses.holds(where, r) is True]
    row = []
    for col, f in want:
        vals = [v for v in (ses.cell((col,), r) for r in sel) if v is not None]
        if f == 'COUNT':
            row.append(len(sel))
        elif f == 'MAX':
            row.append(('agg', 'MAX', tuple(vals)))
        elif not vals:
            row.append(None)
        else:
            p = ('prod', tuple(sorted(v[1][0] for v in vals)), col)
            row.append(p if f == 'SUM' else ('text', (p, ',', str(len(vals)))))
    return row, sel


def normal(v, meta):
    """a computed cell with its modulus replaced by the column whose key squares to it"""
    if isinstance(v, tuple) and v[0] == 'text':
        return ('text', tuple(normal(x, meta) for x in v[1]))
    if isinstance(v, tuple) and v[0] == 'prod':
        for c in ('phys_ia_arithmetic', 'phys_ib_arithmetic'):
            if is_square(v[2], c, meta):
                return ('prod', v[1], c)
    return v


def check_C19(project, rep):
    ag = Agg(project)
    regex(ag)
    for tag, js, want, answerable in client():
        paths = ag.invoke(js, 'SELECT', rows=[])
        answered = [(v, s) for v, s in paths if not isinstance(v, Exc)]
        rep.count('statements')
        if answerable:
            rep.check(answered, tag + ': refused', 'the statement is refused: %r' % (paths[:1] and paths[0][0],))
        if not answered:
            rep.count('refused')
            rep.ok('%s: refused' % tag)
        for v, s in answered:
            rep.count('answered')
            if answerable is False:
                rep.check(False, tag, 'is answered by %r, which is not the answer of the statement'
                         % (flat(executes(s)[-1].args[0], {}) if executes(s) else None,))
                continue
            one_statement(ag, rep, tag, js, want, s)
    rep.need('answered', 60)
    rep.need('refused', 30)
    average(project, rep)


def one_statement(ag, rep, tag, js, want, s):
    ev = executes(s)
    holes = {}
    texts = [flat(e.args[0], holes) for e in ev]
    rep.check(len({origin(e) for e in ev}) == 1, tag + ': session', 'the statements run on %d sessions: %r'
              % (len({origin(e) for e in ev}), texts), 'one session')
    # the client's condition, as the formatter writes it without the aggregates
    ref = dict(js)
    for k in ('limit', 'orderby', 'offset'):
        ref.pop(k, None)
    ref['select'] = {'value': {'count': '*'}}
    rs = [(v2, s2) for v2, s2 in ag.invoke(ref, 'SELECT', rows=[]) if not isinstance(v2, Exc)]
    if not rs:
        raise AnalysisError('select count(*) with the condition of %s is refused' % tag)
    plain = P(tokens(flat(executes(rs[0][1])[-1].args[0], {}))).statement()[1]
    where, base = plain['where'], plain['from']
    try:
        prog = [P(tokens(t)).statement() for t in texts]
    except Syntax as x:
        rep.check(False, tag + ': statement', 'MySQL refuses %r: %s' % (texts, x))
        return
    except Cannot as x:
        raise AnalysisError('%s: %s in %r' % (tag, x, texts))
    if any(p[0] != 'set' for p in prog[:-1]) or prog[-1][0] != 'select':
        raise AnalysisError('%s: %r' % (tag, texts))
    ats = list(dict.fromkeys(a for c in wheres(prog, []) + [where] for a in atoms(c, [])))
    cols = list(dict.fromkeys([c for c, f in want if f in ('SUM', 'AVG')] + sorted(nulltests(where, set()))))
    for n, nulls, truth in tables(cols, ats):
        ses = Session(base, n, nulls, truth, holes)
        exp, sel = expected(want, where, ses)
        try:
            res = None
            for p in prog:
                res = ses.run(p)
            got = [[normal(x, ag.meta) for x in r] for r in res]
        except Syntax as x:
            rep.check(False, tag + ': statement', 'MySQL refuses %r: %s' % (texts, x))
            return
        except Cannot as x:
            if 'rows of another table' in str(x) or str(x) in ('GROUP', 'HAVING', 'UNION', 'two moduli', 'the order of the rows'):
                rep.check(False, tag + ': rows', '%s in %r' % (x, texts))
                return
            raise AnalysisError('%s: %s in %r' % (tag, x, texts))
        rep.count('tables')
        good = got == [exp] or (not sel and got == [])
        if not rep.check(good, tag, 'over %d rows (NULL: %s, comparisons: %s) the answer is %r, expected %r; statements %r'
                         % (n, sorted(nulls), sorted(truth.items(), key=repr), got, exp, texts)):
            return


def average(project, rep):
    """the cell 'sum,number' decrypts to the mean"""
    from . import crypto as cr
    C = cr.Ciphers(project)
    for o, s in C.make('HomomorphicCipher', [Sym('p', 'int'), Sym('q', 'int')]):
        for e, s1 in C.call(o, 'encrypt', [Sym('x', 'int')], s):
            e2 = cr.reduced(e)
            pk = e2.args[0].args[0]
            for n in (1, 2, 7, 1000):
                cell = T('cat', (cr.pct_digits(pk, 'x'), K(',%d' % n)), 'str')
                for d, s2 in C.call(o, 'decrypt', [cell], s1.copy()):
                    got = d if isinstance(d, Exc) else cr.reduced(d)
                    m = got
                    if isinstance(m, T) and m.op == 'round' and m.args[1:] and isinstance(m.args[1], K) and \
                            isinstance(m.args[1].v, int) and m.args[1].v >= 4:
                        m = m.args[0]
                    x = T('pplain', (Sym('x', 'int'),))
                    rep.count('means')
                    rep.check(m == T('/', (x, K(n))) or (n == 1 and m == x), 'mean of %d' % n,
                              "the cell 'sum,%d' decrypts to %s" % (n, repr(got)[:300]), 'the mean of %d: %r' % (n, got))
    rep.need('means', 4)
