"""S01-S03: the SQL text the formatter emits, read by MySQL's rules, is the statement it was given.

The formatter is propagated over statement trees whose constants are unknown symbols; what comes back is a text with
holes.  An independent reader of MySQL's grammar (operator levels, clauses, quoting) turns that text back into a tree,
which must be the tree that went in."""
import itertools
import re

from sa.absint import Interp, AnalysisError
from sa.values import *
from .common import syms_in, Gateway

FM = 'sql_parsing.formatting'
OPAQUE = ('parsing', 'imports', 'sql_parsing.sql_parser', 'sql_parsing.types', 'sql_parsing.windows')
HOLE = 0xE000


def _listwrap(I, args, kw, st, node, fr):
    v = args[0]
    if v == NONE:
        return [(st.list([]), st)]
    if isinstance(v, Tup) or isinstance(v, Ref) and isinstance(st.heap[v.oid], HList):
        return [(v, st)]
    return [(st.list([v]), st)]


class Fmt:
    """the formatter as an abstract object"""

    def __init__(self, project, keywords=(), how=None):
        if how is None:
            # the way the gateway calls the formatter
            gw = Gateway(project)
            gw.rewrite({'select': [{'value': 'pi'}], 'from': 't'})
            if not gw.format_args:
                raise AnalysisError('no call of sql_parsing.format found from Rewriter.rewrite_query')
            how = sorted(set(gw.format_args), key=repr)
        def reserved(I, args, kw, st, node, fr):
            x = args[-1]
            if isinstance(x, K) and isinstance(x.v, str) and x.v.lower() in keywords:
                return [(T('parsed', (x,)), st)]
            return [(Exc(st.alloc(HInst(Ext('builtins.Exception'), {'args': Tup()})), node), st)]
        intr = {'parsing.listwrap': _listwrap, 'parsing.utils.listwrap': _listwrap,
                '.parse_string': reserved, '.parseString': reserved}
        self.I = Interp(project, opaque=OPAQUE, intrinsics=intr)
        self.starts = [s2 for v, s in self.I.import_module('sql_parsing', State()) if not isinstance(v, Exc)
                       for v2, s2 in self.I.import_module(FM, s) if not isinstance(v2, Exc)]
        if not self.starts:
            raise AnalysisError('sql_parsing cannot be imported in the model')
        self.args = how
        self.n = 0

    def texts(self, js):
        """[(text term or Exc, state)] for every path"""
        res = []
        for s0 in self.starts:
            for args, kw in self.args:
                s = s0.copy()
                f = self.I.mod_get('sql_parsing', 'format', s)
                if f is None:
                    raise AnalysisError('sql_parsing.format is gone')
                res += self.I.call(f, [lift(js, s)] + list(args), dict(kw), s, None, None)
        self.n += len(res)
        return res


def holes(term):
    """term -> (text with one private character per unknown part, [unknown parts])"""
    parts, hs = [], []

    def add(t):
        if isinstance(t, K):
            parts.append(str(t.v))
        elif isinstance(t, T) and t.op == 'cat':
            for a in t.args:
                add(a)
        else:
            if t not in hs:
                hs.append(t)
            parts.append(chr(HOLE + hs.index(t)))
    add(term)
    return ''.join(parts), hs


# ---------------------------------------------------------------- the reader
class Unreadable(Exception):
    pass


ESC = {'0': '\0', 'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'Z': '\x1a'}
TOK = re.compile(r'''\s+|(?P<num>\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+)|(?P<id>[A-Za-z_$\u0080-\udfff][\w$]*)'''
                 r'''|(?P<op><=>|<=|>=|<>|!=|\|\||&&|<<|>>|[-+*/%(),.<>=|&~^!])''')


def tokens(text, hs):
    """MySQL's lexer (default SQL mode) over the emitted text"""
    i, out = 0, []
    while i < len(text):
        c = text[i]
        if HOLE <= ord(c) < HOLE + len(hs):
            out.append(('hole', hs[ord(c) - HOLE]))
            i += 1
            continue
        if text.startswith('--', i) and (i + 2 == len(text) or text[i + 2].isspace()) or c == '#' or text.startswith('/*', i):
            raise Unreadable('a comment starts at %r' % text[i:i + 12])
        if c in '\'"`':
            j, buf = i + 1, []
            while True:
                if j >= len(text):
                    raise Unreadable('unterminated %s' % c)
                d = text[j]
                if d == c:
                    if text.startswith(c, j + 1):
                        buf.append(c)
                        j += 2
                        continue
                    break
                if d == '\\' and c != '`':
                    if j + 1 >= len(text):
                        raise Unreadable('unterminated %s' % c)
                    n = text[j + 1]
                    buf.append(ESC.get(n, '\\' + n if n in '%_' else n))
                    j += 2
                    continue
                buf.append(hs[ord(d) - HOLE] if HOLE <= ord(d) < HOLE + len(hs) else d)
                j += 1
            if c == '`':
                if not buf:
                    raise Unreadable('empty identifier')
                out.append(('qid', ''.join(map(str, buf))))
            else:
                out.append(('str', buf[0] if len(buf) == 1 and not isinstance(buf[0], str) else
                            ''.join(b if isinstance(b, str) else repr(b) for b in buf)))
            i = j + 1
            continue
        m = TOK.match(text, i)
        if not m:
            raise Unreadable('MySQL cannot read %r' % text[i:i + 12])
        i = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


RES = set('''select from where and or not in is null like rlike regexp between group by having order limit offset union all
distinct on using join inner left right full outer cross natural as case when then else end set values into insert update
delete drop table if exists with interval asc desc collate escape over partition rows for except intersect minus'''.split())
JOINS = ('join', 'inner join', 'left join', 'right join', 'left outer join', 'right outer join', 'cross join',
         'full join', 'full outer join')
UNITS = ('microsecond', 'second', 'minute', 'hour', 'day', 'week', 'month', 'quarter', 'year')


class Reader:
    """recursive descent over MySQL's grammar: expr / boolean_primary / predicate / bit_expr / simple_expr"""

    def __init__(self, text, hs):
        self.t = tokens(text, hs)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def word(self, *ws, at=0):
        for k, w in enumerate(ws):
            t = self.peek(at + k)
            if t[0] != 'id' or t[1].lower() != w:
                return False
        return True

    def op(self, *os):
        t = self.peek()
        return t[0] == 'op' and t[1] in os

    def take(self, *ws):
        if self.word(*ws):
            self.i += len(ws)
            return True
        return False

    def eat(self, o):
        if self.op(o):
            self.i += 1
            return True
        return False

    def need(self, ok, what):
        if not ok:
            raise Unreadable('%s expected at %r' % (what, ' '.join(str(x[1]) for x in self.t[self.i:self.i + 5])))

    def ident(self):
        t = self.peek()
        self.need(t[0] == 'qid' or t[0] == 'id' and t[1].lower() not in RES, 'a name')
        self.i += 1
        return t[1]

    def name(self):
        parts = [self.ident()]
        while self.op('.'):
            self.i += 1
            parts.append('*' if self.eat('*') else self.ident())
        return '.'.join(parts)

    # expressions
    def expr(self):
        l = self.e_and()
        while self.word('or') or self.op('||'):
            self.i += 1
            l = fold('or', l, self.e_and())
        return l

    def e_and(self):
        l = self.e_not()
        while self.word('and') or self.op('&&'):
            self.i += 1
            l = fold('and', l, self.e_not())
        return l

    def e_not(self):
        if self.take('not'):
            return ('not', self.e_not())
        return self.boolean()

    def boolean(self):
        l = self.predicate()
        while True:
            if self.take('is'):
                neg = self.take('not')
                if self.take('null'):
                    l = ('isnotnull' if neg else 'isnull', l)
                    continue
                for w in ('true', 'false', 'unknown'):
                    if self.take(w):
                        l = ('is_not' if neg else 'is', l, w.upper())
                        break
                else:
                    raise Unreadable('IS ' + str(self.peek()[1]))
                continue
            for o, k in (('=', 'eq'), ('<>', 'neq'), ('!=', 'neq'), ('>=', 'gte'), ('<=', 'lte'), ('>', 'gt'), ('<', 'lt')):
                if self.op(o):
                    self.i += 1
                    l = (k, l, self.predicate())
                    break
            else:
                return l

    def predicate(self):
        l = self.bits()
        neg = False
        if self.word('not') and (self.word('in', at=1) or self.word('between', at=1) or self.word('like', at=1)
                                 or self.word('rlike', at=1) or self.word('regexp', at=1)):
            neg = True
            self.i += 1
        if self.take('in'):
            self.need(self.eat('('), '(')
            if self.word('select') or self.word('with'):
                q = self.query()
                self.need(self.eat(')'), ')')
                return ('nin' if neg else 'in', l, q)
            items = [self.expr()]
            while self.eat(','):
                items.append(self.expr())
            self.need(self.eat(')'), ')')
            if len(items) == 1 and items[0][0] in QUERY:
                return ('nin' if neg else 'in', l, items[0])
            return ('nin' if neg else 'in', l, ('row',) + tuple(items))
        if self.take('between'):
            a = self.bits()
            self.need(self.take('and'), 'AND')
            return ('not_between' if neg else 'between', l, a, self.predicate())
        if self.take('like'):
            return ('not_like' if neg else 'like', l, self.simple())
        if self.take('rlike') or self.take('regexp'):
            return ('not_rlike' if neg else 'rlike', l, self.bits())
        return l

    def bits(self):
        return self.b_or()

    def _left(self, ops, sub):
        l = sub()
        while self.peek()[0] == 'op' and self.peek()[1] in ops or self.peek()[0] == 'id' and self.peek()[1].lower() in ops:
            o = ops[self.peek()[1].lower()]
            self.i += 1
            l = fold(o, l, sub())
        return l

    def b_or(self):
        return self._left({'|': 'binary_or'}, self.b_and)

    def b_and(self):
        return self._left({'&': 'binary_and'}, self.b_shift)

    def b_shift(self):
        return self._left({'<<': 'shl', '>>': 'shr'}, self.b_add)

    def b_add(self):
        return self._left({'+': 'add', '-': 'sub'}, self.b_mul)

    def b_mul(self):
        return self._left({'*': 'mul', '/': 'div', '%': 'mod', 'div': 'idiv', 'mod': 'mod'}, self.b_xor)

    def b_xor(self):
        return self._left({'^': 'xor'}, self.simple)

    def simple(self):
        v = self.simple1()
        while self.take('collate'):
            v = ('collate', v, ('col', self.ident()))
        return v

    def simple1(self):
        t = self.peek()
        if t[0] == 'op' and t[1] in '-+~!':
            # unary minus binds tighter than the binary operators, less tight than COLLATE
            self.i += 1
            x = self.simple()
            return {'-': ('neg', x), '+': x, '~': ('binary_not', x), '!': ('not', x)}[t[1]]
        if t[0] == 'num':
            self.i += 1
            return ('num', t[1])
        if t[0] == 'hole':
            self.i += 1
            return ('num', hole_of(t[1]))
        if t[0] == 'str':
            self.i += 1
            return ('str', hole_of(t[1]))
        if self.eat('('):
            if self.word('select') or self.word('with'):
                q = self.query()
                self.need(self.eat(')'), ')')
                return q
            items = [self.expr()]
            while self.eat(','):
                items.append(self.expr())
            self.need(self.eat(')'), ')')
            if len(items) == 1 and items[0][0] in QUERY and self.word('union'):
                return self.union_rest(items[0])
            return items[0] if len(items) == 1 else ('row',) + tuple(items)
        if self.eat('*'):
            return ('star',)
        if self.take('null'):
            return ('null',)
        if self.take('case'):
            return self.case()
        if self.take('exists'):
            self.need(self.eat('('), '(')
            q = self.query()
            self.need(self.eat(')'), ')')
            return ('existsq', q)
        if self.take('interval'):
            e = self.expr()
            u = self.ident()
            self.need(u.lower() in UNITS, 'a unit')
            return ('interval', e, u.lower())
        if t[0] in ('id', 'qid'):
            if t[0] == 'id' and self.peek(1) == ('op', '('):
                return self.function()
            return ('col', self.name())
        raise Unreadable('operand expected at %r' % (' '.join(str(x[1]) for x in self.t[self.i:self.i + 5]),))

    def function(self):
        f = self.peek()[1].lower()
        self.need(f not in RES or f in ('if', 'left', 'right', 'values', 'insert', 'all'), 'a function name')
        self.i += 2
        if f == 'cast':
            e = self.expr()
            self.need(self.take('as'), 'AS')
            ty = (self.ident().lower(),)
            if self.eat('('):
                ty += (self.expr(),)
                while self.eat(','):
                    ty += (self.expr(),)
                self.need(self.eat(')'), ')')
            self.need(self.eat(')'), ')')
            return ('cast', e, ty)
        if f == 'extract':
            u = self.ident().lower()
            self.need(self.take('from'), 'FROM')
            e = self.expr()
            self.need(self.eat(')'), ')')
            return ('extract', u, e)
        if f == 'trim':
            d = c = None
            for w in ('leading', 'trailing', 'both'):
                if self.take(w):
                    d = w
            if self.take('from'):
                e = self.expr()
            else:
                e = self.expr()
                if self.take('from'):
                    c, e = e, self.expr()
            self.need(self.eat(')'), ')')
            return ('trim', d, c, e)
        distinct = self.take('distinct')
        args = []
        if f in ('all', 'any', 'some') and self.word('select'):
            args.append(self.query())
        elif not self.op(')'):
            args.append(self.expr())
            while self.eat(','):
                args.append(self.expr())
        self.need(self.eat(')'), ')')
        v = ('fn', f, ('distinct',) + tuple(args)) if distinct else ('fn', f) + tuple(args)
        if f == 'concat' and not distinct:
            v = ('concat',) + flat('concat', args)
        if f == 'mod' and len(args) == 2:
            v = ('mod',) + tuple(args)
        if self.take('over'):
            self.need(self.eat('('), '(')
            p, o, fr = (), (), None
            if self.take('partition', 'by'):
                p = (self.expr(),)
                while self.eat(','):
                    p += (self.expr(),)
            if self.take('order', 'by'):
                o = self.order_items()
            if self.take('rows'):
                if self.take('between'):
                    a = self.bound()
                    self.need(self.take('and'), 'AND')
                    fr = (a, self.bound())
                else:
                    fr = (self.bound(), 0)
            self.need(self.eat(')'), ')')
            v = ('over', v, p, o, fr)
        return v

    def bound(self):
        if self.take('current', 'row'):
            return 0
        if self.take('unbounded'):
            n = None
        else:
            t = self.peek()
            self.need(t[0] == 'num', 'a number of rows')
            self.i += 1
            n = int(t[1])
        if self.take('preceding'):
            return 'unbounded preceding' if n is None else -n
        self.need(self.take('following'), 'FOLLOWING')
        return 'unbounded following' if n is None else n

    def case(self):
        base = None if self.word('when') else self.expr()
        whens, els = (), None
        while self.take('when'):
            c = self.expr()
            self.need(self.take('then'), 'THEN')
            whens += ((c, self.expr()),)
        if self.take('else'):
            els = self.expr()
        self.need(self.take('end'), 'END')
        return ('case', base, whens, els)

    # queries
    def query(self):
        names = ()
        if self.take('with'):
            while True:
                n = self.ident()
                self.need(self.take('as'), 'AS')
                self.need(self.eat('('), '(')
                q = self.query()
                self.need(self.eat(')'), ')')
                names += ((n, q),)
                if not self.eat(','):
                    break
        q = self.union_rest(self.query_term())
        q = self.tail(q)
        return ('with', names, q) if names else q

    def query_term(self):
        if self.eat('('):
            q = self.query()
            self.need(self.eat(')'), ')')
            return q
        self.need(self.take('select'), 'SELECT')
        distinct = self.take('distinct')
        items = [self.item()]
        while self.eat(','):
            items.append(self.item())
        frm = where = having = None
        group = ()
        if self.take('from'):
            frm = self.tables()
        if self.take('where'):
            where = self.expr()
        if self.take('group', 'by'):
            group = (self.expr(),)
            while self.eat(','):
                group += (self.expr(),)
        if self.take('having'):
            having = self.expr()
        return ('select', distinct, tuple(items), frm, where, group, having)

    def union_rest(self, q):
        while True:
            for w in ('union', 'except', 'intersect'):
                if self.take(w):
                    k = w + '_all' if self.take('all') else w
                    if not self.take('distinct'):
                        pass
                    r = self.query_term()
                    q = fold(k, q, r) if q[0] != 'ordered_bare' else q
                    break
            else:
                return q

    def order_items(self):
        res = ()
        while True:
            e = self.expr()
            d = 'desc' if self.take('desc') else 'asc' if self.take('asc') else 'asc'
            res += ((e, d),)
            if not self.eat(','):
                return res

    def tail(self, q):
        order, lim, off = (), None, None
        if self.take('order', 'by'):
            order = self.order_items()
        if self.take('limit'):
            lim = self.simple()
            if self.eat(','):
                off, lim = lim, self.simple()
            elif self.take('offset'):
                off = self.simple()
        return ('tail', q, order, lim, off) if order or lim is not None else q

    def item(self):
        if self.eat('*'):
            return (('star',), None)
        e = self.expr()
        return (e, self.alias())

    def alias(self):
        if self.take('as'):
            return self.ident()
        t = self.peek()
        if t[0] == 'qid' or t[0] == 'id' and t[1].lower() not in RES:
            self.i += 1
            return t[1]
        return None

    def tables(self):
        res = [self.joined()]
        while self.eat(','):
            res.append(self.joined())
        return ('tables',) + tuple(res)

    def joined(self):
        l = (('table', self.factor(), None, None),)
        while True:
            for j in sorted(JOINS, key=len, reverse=True):
                if self.take(*j.split()):
                    r = self.factor()
                    on = using = None
                    if self.take('on'):
                        on = self.expr()
                    elif self.take('using'):
                        self.need(self.eat('('), '(')
                        using = (self.ident(),)
                        while self.eat(','):
                            using += (self.ident(),)
                        self.need(self.eat(')'), ')')
                    l += ((j.replace(' outer', '').replace('inner ', ''), r, on, using),)
                    break
            else:
                return l

    def factor(self):
        if self.eat('('):
            self.need(self.word('select') or self.word('with') or self.op('('), 'a query')
            q = self.query()
            self.need(self.eat(')'), ')')
            return (q, self.alias())
        return (('col', self.name()), self.alias())

    def statement(self):
        if self.take('insert'):
            self.take('into')
            t = self.name()
            cols = None
            if self.op('(') and not (self.peek(1)[0] == 'id' and self.peek(1)[1].lower() == 'select'):
                self.i += 1
                cols = (self.ident(),)
                while self.eat(','):
                    cols += (self.ident(),)
                self.need(self.eat(')'), ')')
            if self.take('values'):
                rows = ()
                while True:
                    self.need(self.eat('('), '(')
                    row = (self.expr(),)
                    while self.eat(','):
                        row += (self.expr(),)
                    self.need(self.eat(')'), ')')
                    rows += (row,)
                    if not self.eat(','):
                        break
                v = ('insert', t, cols, rows)
            else:
                v = ('insert', t, cols, self.query())
        elif self.take('update'):
            t = self.name()
            self.need(self.take('set'), 'SET')
            sets = ()
            while True:
                c = self.name()
                self.need(self.eat('='), '=')
                sets += ((c, self.expr()),)
                if not self.eat(','):
                    break
            v = self.tail(('update', t, sets, self.expr() if self.take('where') else None))
        elif self.take('delete'):
            self.need(self.take('from'), 'FROM')
            t = self.name()
            v = self.tail(('delete', t, self.expr() if self.take('where') else None))
        elif self.take('drop'):
            self.need(self.take('table'), 'TABLE')
            ie = self.take('if', 'exists')
            v = ('drop', self.name(), ie)
        else:
            v = self.query()
        self.need(self.peek()[0] == 'eof', 'the end')
        return v


QUERY = ('select', 'tail', 'with', 'union', 'union_all', 'except', 'intersect')
ASSOC = ('and', 'or', 'add', 'mul', 'concat', 'binary_and', 'binary_or', 'union_all')


def flat(op, items):
    res = ()
    for x in items:
        res += x[1:] if x[0] == op else (x,)
    return res


def fold(op, l, r):
    if op in ASSOC:
        return (op,) + flat(op, [l, r])
    return (op, l, r)


def hole_of(t):
    """which unknown stands in the text: the one symbol it was made of"""
    if isinstance(t, V):
        s = syms_in(t)
        return next(iter(s)) if len(s) == 1 else repr(t)
    return t


# ---------------------------------------------------------------- the tree that went in
BIN = ('and', 'or', 'add', 'sub', 'mul', 'div', 'mod', 'binary_and', 'binary_or', 'eq', 'neq', 'gt', 'gte', 'lt', 'lte',
       'like', 'not_like', 'rlike', 'not_rlike', 'union', 'union_all', 'except', 'intersect')
SETOPS = ('union', 'union_all', 'except', 'intersect')


def lw(x):
    return x if isinstance(x, list) else [x]


def tree(j):
    """the meaning of a statement tree, in the reader's terms"""
    if isinstance(j, V):
        return ('num', j.name)
    if j is None:
        return ('null',)
    if isinstance(j, (int, float)):
        return ('num', str(j)) if j >= 0 else ('neg', ('num', str(-j)))
    if isinstance(j, str):
        return ('star',) if j == '*' else ('col', j)
    if isinstance(j, list):
        return ('row',) + tuple(tree(x) for x in j) if len(j) > 1 else tree(j[0])
    if 'literal' in j:
        l = j['literal']
        if isinstance(l, list):
            return ('row',) + tuple(tree({'literal': x}) for x in l)
        return ('str', l.name if isinstance(l, V) else l)
    if 'insert' in j:
        cols = j.get('columns')
        cols = None if cols is None else tuple(lw(cols))
        if 'values' in j:
            rows = j['values']
            if isinstance(rows[0], dict):
                cols = tuple(sorted({k for r in rows for k in r}))
                return ('insert', j['insert'], cols, tuple(tuple(const(r[c]) for c in cols) for r in rows))
            return ('insert', j['insert'], cols, tuple(tuple(const(x) for x in lw(r)) for r in rows))
        q = j['query']
        if set(q) == {'select'}:
            return ('insert', j['insert'], cols, (tuple(tree(x['value']) for x in lw(q['select'])),))
        return ('insert', j['insert'], cols, tree(q))
    if 'drop' in j:
        return ('drop', j['drop']['table'], bool(j['drop'].get('if_exists')))
    if 'update' in j:
        return tail(j, ('update', j['update'], tuple((k, tree(v)) for k, v in j['set'].items()), where(j)))
    if 'delete' in j:
        return tail(j, ('delete', j['delete'], where(j)))
    if 'select' in j or 'select_distinct' in j:
        items = tuple(item(x) for x in lw(j.get('select', j.get('select_distinct'))))
        q = ('select', 'select_distinct' in j, items, tables(j['from']) if 'from' in j else None, where(j),
             tuple(item(x)[0] for x in lw(j['groupby'])) if 'groupby' in j else (),
             tree(j['having']) if 'having' in j else None)
        return withs(j, tail(j, q))
    if 'from' in j:
        return withs(j, tail(j, tree(j['from'])))
    if 'value' in j:
        v = tree(j['value'])
        if 'over' in j:
            o = j['over']
            v = ('over', v, tuple(tree(x) for x in lw(o.get('partitionby', []))),
                 tuple((tree(x['value']), x.get('sort', 'asc')) for x in lw(o.get('orderby', []))), frame(o.get('range')))
        return v
    if 'trim' in j:
        return ('trim', j.get('direction'), tree(j['characters']) if 'characters' in j else None, tree(j['trim']))
    if 'extract' in j:
        return ('extract', j['extract'][0], tree(j['extract'][1]))
    if len([k for k in j if k != 'with']) != 1:
        raise AnalysisError('statement tree not understood: %r' % (j,))
    k = [k for k in j if k != 'with'][0]
    v = j[k]
    if k in BIN:
        r = tree(v[0])
        for x in v[1:]:
            r = fold(k, r, tree(x))
        return withs(j, r)
    if k == 'null':
        return ('null',)
    if k == 'concat':
        return ('concat',) + flat('concat', [tree(x) for x in v])
    if k in ('neg', 'not', 'binary_not'):
        return (k, tree(v))
    if k == 'missing':
        return ('isnull', tree(v))
    if k == 'exists':
        return ('isnotnull', tree(v))
    if k in ('is', 'is_not'):
        return (k, tree(v[0]), str(v[1]).upper())
    if k in ('in', 'nin'):
        s = v[1]
        if isinstance(s, dict) and 'literal' in s:
            s = tree({'literal': lw(s['literal'])})
        elif isinstance(s, dict):
            s = tree(s)
            s = s if s[0] in QUERY else ('row', s)
        else:
            s = ('row',) + tuple(tree(x) for x in lw(s))
        return (k, tree(v[0]), s)
    if k in ('between', 'not_between'):
        return (k,) + tuple(tree(x) for x in v)
    if k == 'case':
        ws = [w for w in lw(v) if isinstance(w, dict) and 'when' in w]
        es = [w for w in lw(v) if not (isinstance(w, dict) and 'when' in w)]
        return ('case', None, tuple((tree(w['when']), tree(w['then'])) for w in ws), tree(es[0]) if es else None)
    if k == 'cast':
        (ty, par), = v[1].items()
        return ('cast', tree(v[0]), (ty,) + tuple(tree(x) for x in (lw(par) if par != {} else [])))
    if k == 'collate':
        return ('collate', tree(v[0]), ('col', v[1]))
    if k == 'interval':
        return ('interval', tree(v[0]), v[1])
    args = () if v == {} else tuple(tree(x) for x in lw(v))
    if len(args) == 1 and isinstance(v, dict) and 'distinct' in v:
        return ('fn', k, ('distinct',) + tuple(tree(x) for x in lw(v['distinct'])))
    return ('fn', k) + args


def const(x):
    if isinstance(x, Sym):
        return ('str' if x.kind == 'str' else 'num', x.name)
    if isinstance(x, str):
        return ('str', x)
    return tree(x)


def where(j):
    return tree(j['where']) if 'where' in j else None


def frame(r):
    if r is None:
        return None
    a, b = r.get('min'), r.get('max')
    return ('unbounded preceding' if a is None else a, 'unbounded following' if b is None else b)


def item(x):
    if isinstance(x, dict) and 'value' in x:
        return (tree({k: v for k, v in x.items() if k != 'name'}), x.get('name'))
    return (tree(x), None)


def tables(f):
    res = []
    for x in lw(f):
        js = [k for k in x if k in JOINS] if isinstance(x, dict) else []
        if js:
            on = tree(x['on']) if 'on' in x else None
            using = tuple(lw(x['using'])) if 'using' in x else None
            res[-1] += ((js[0].replace(' outer', '').replace('inner ', ''), factor(x[js[0]]), on, using),)
        else:
            res.append((('table', factor(x), None, None),))
    return ('tables',) + tuple(res)


def factor(x):
    return item(x)


def tail(j, q):
    order = tuple((tree(x['value']), x.get('sort', 'asc')) for x in lw(j['orderby'])) if 'orderby' in j else ()
    lim = off = None
    if 'limit' in j:
        l = lw(j['limit'])
        lim = tree(l[-1])
        off = tree(l[0]) if len(l) > 1 else None
    if 'offset' in j:
        off = tree(j['offset'])
    return ('tail', q, order, lim, off) if order or lim is not None else q


def withs(j, q):
    if 'with' not in j:
        return q
    return ('with', tuple((w['name'], tree(w['value'])) for w in lw(j['with'])), q)


# ---------------------------------------------------------------- expressions
SAMPLES = {
    'or': 2, 'and': 2, 'eq': 2, 'neq': 2, 'gt': 2, 'gte': 2, 'lt': 2, 'lte': 2, 'add': 2, 'sub': 2, 'mul': 2, 'div': 2,
    'mod': 2, 'binary_and': 2, 'binary_or': 2, 'like': 2, 'not_like': 2, 'rlike': 2, 'not_rlike': 2, 'concat': 2,
    'between': 3, 'not_between': 3, 'not': 1, 'neg': 1, 'binary_not': 1, 'missing': 1, 'exists': 1, 'f': 2, 'count': 1,
    'in': 1, 'nin': 1, 'insub': 1, 'case': 3, 'cast': 1, 'collate': 1, 'interval': 1, 'distinct': 1, 'trim': 1,
    'extract': 1, 'is': 1, 'is_not': 1, 'and3': 3, 'sub3': 3, 'list': 1, 'instr': 1, 'subquery': 1, 'date_add': 1, 'case2': 3, 'trim2': 1}


def build(op, xs):
    xs = list(xs)
    if op in ('not', 'neg', 'binary_not', 'missing', 'exists', 'count'):
        return {op: xs[0]}
    if op == 'in' or op == 'nin':
        return {op: [xs[0], [Sym('i1', 'int'), Sym('i2', 'int')]]}
    if op == 'list':
        return {'in': ['a', [xs[0], Sym('i2', 'int')]]}
    if op in ('is', 'is_not'):
        return {op: [xs[0], True]}
    if op == 'instr':
        return {'in': [xs[0], {'literal': [Sym('s1', 'str'), Sym('s2', 'str')]}]}
    if op == 'insub':
        return {'in': [xs[0], {'select': {'value': 'b'}, 'from': 's'}]}
    if op == 'subquery':
        return {'gt': [{'select': {'value': {'max': 'b'}}, 'from': 's', 'where': xs[0]}, Sym('i1', 'int')]}
    if op == 'case':
        return {'case': [{'when': xs[0], 'then': xs[1]}, xs[2]]}
    if op == 'case2':
        return {'case': [{'when': xs[0], 'then': xs[1]}, {'when': 'p', 'then': xs[2]}]}
    if op == 'cast':
        return {'cast': [xs[0], {'decimal': [10, 2]}]}
    if op == 'collate':
        return {'collate': [xs[0], 'utf8_bin']}
    if op == 'interval':
        return {'interval': [xs[0], 'day']}
    if op == 'date_add':
        return {'date_add': ['a', {'interval': [xs[0], 'day']}]}
    if op == 'distinct':
        return {'count': {'distinct': xs[0]}}
    if op == 'trim':
        return {'trim': xs[0]}
    if op == 'trim2':
        return {'trim': xs[0], 'characters': {'literal': Sym('s1', 'str')}, 'direction': 'leading'}
    if op == 'extract':
        return {'extract': ['year', xs[0]]}
    if op == 'and3':
        return {'and': xs}
    if op == 'sub3':
        return {'sub': xs}
    return {op: xs}


def leaf(k):
    return [Sym('n%d' % k, 'int'), 'c%d' % k, {'literal': Sym('l%d' % k, 'str')}]


BOOL = ('or', 'and', 'eq', 'neq', 'gt', 'gte', 'lt', 'lte', 'like', 'not_like', 'rlike', 'not_rlike', 'between',
        'not_between', 'not', 'missing', 'exists', 'in', 'nin', 'insub', 'and3', 'instr', 'subquery', 'list')


def combos(depth3):
    """every operator with every operator in every operand place; with depth3 one more level for one operator of each
    binding strength"""
    def leaves_of(op):
        return [leaf(i)[(i + 1) % 3 if op == 'f' else 1] for i in range(SAMPLES[op])]
    for op in SAMPLES:
        if op in ('interval',):
            continue
        for kind in range(3):
            yield op, build(op, [leaf(i)[kind] for i in range(SAMPLES[op])])
        for pos in range(SAMPLES[op]):
            for inner in SAMPLES:
                if inner == 'interval' and op not in ('add', 'sub'):
                    continue
                if op == 'collate' and inner == 'interval':
                    continue
                xs = leaves_of(op)
                xs[pos] = build(inner, [('k%d' % i) if i else Sym('m', 'int') for i in range(SAMPLES[inner])])
                yield '%s[%d]:%s' % (op, pos, inner), build(op, xs)
    if not depth3:
        return
    reps = ('or', 'and', 'not', 'between', 'eq', 'missing', 'in', 'like', 'binary_or', 'binary_and', 'add', 'sub', 'mul',
            'neg', 'binary_not', 'concat', 'f', 'case', 'collate')
    for a in reps:
        for i in range(SAMPLES[a]):
            for b in reps:
                for k in range(SAMPLES[b]):
                    for c in reps:
                        xb = ['k%d' % q for q in range(SAMPLES[b])]
                        xb[k] = build(c, [('h%d' % q) for q in range(SAMPLES[c])])
                        xa = leaves_of(a)
                        xa[i] = build(b, xb)
                        yield '%s[%d]:%s[%d]:%s' % (a, i, b, k, c), build(a, xa)


def judge(fm, rep, key, js, what):
    want = tree(js)
    outs = fm.texts(js)
    rep.count('texts', len(outs))
    good = 0
    for v, st in outs:
        if isinstance(v, Exc):
            rep.bad(key, '%s: formatting raises for %r' % (what, js))
            continue
        text, hs = holes(v)
        show = ''.join('<%s>' % hole_of(hs[ord(c) - HOLE]) if HOLE <= ord(c) < HOLE + len(hs) else c for c in text)
        try:
            got = Reader(text, hs).statement()
        except Unreadable as e:
            rep.bad(key, '%s is sent as `%s`, which MySQL cannot read: %s' % (what, show, e))
            continue
        good += rep.check(got == want, key, '%s is sent as `%s`, which MySQL reads as %r instead of %r' % (what, show, got, want),
                          '%s -> %s' % (what, show))
    return good


def check_S01(project, rep):
    fm = Fmt(project)
    for tag, e in combos(rep.tier == 'thorough'):
        rep.count('expressions')
        js = {'select': '*', 'from': 't', 'where': e} if tag.split('[')[0] in BOOL else \
            {'select': [{'value': 'z'}, {'value': e, 'name': 'y'}], 'from': 't'}
        judge(fm, rep, tag, js, 'expression %s' % tag)
    rep.need('expressions', 1500)


# ---------------------------------------------------------------- statements
def _n(k):
    return Sym('n%s' % k, 'int')


def _l(k):
    return {'literal': Sym('l%s' % k, 'str')}


SELECTS = [('*', 'select', '*'), ('one', 'select', {'value': 'a'}), ('alias', 'select', {'value': 'a', 'name': 'x'}),
           ('several', 'select', [{'value': 'a'}, {'value': 't.b', 'name': 'x'}, {'value': _n(1)}, {'value': _l(1), 'name': 'y'}]),
           ('table star', 'select', [{'value': 't.*'}, {'value': 's.a'}]),
           ('count star', 'select', {'value': {'count': '*'}}),
           ('aggregates', 'select', [{'value': {'count': '*'}, 'name': 'n'}, {'value': {'sum': 'a'}}, {'value': {'max': {'add': ['a', 'b']}}}]),
           ('now', 'select', {'value': {'now': {}}}),
           ('distinct', 'select_distinct', [{'value': 'a'}, {'value': 'b', 'name': 'x'}]),
           ('distinct one', 'select_distinct', {'value': 'a'}),
           ('scalar subquery', 'select', [{'value': 'a'}, {'value': {'select': {'value': {'max': 'b'}}, 'from': 's'}, 'name': 'm'}]),
           ('scalar subquery with order', 'select', {'value': {'select': {'value': 'b'}, 'from': 's', 'orderby': {'value': 'b'}, 'limit': 1}, 'name': 'm'}),
           ('window', 'select', [{'value': {'sum': 'a'}, 'over': {'partitionby': 'b', 'orderby': {'value': 'c', 'sort': 'desc'}}, 'name': 'w'}]),
           ('window list', 'select', {'value': {'row_number': {}}, 'over': {'partitionby': ['b', 'c'], 'orderby': [{'value': 'a'}, {'value': 'd'}]}}),
           ('window frame', 'select', {'value': {'avg': 'a'}, 'over': {'partitionby': 'b', 'orderby': {'value': 'c'}, 'range': {'min': -2, 'max': 0}}}),
           ('subquery in function', 'select', {'value': {'coalesce': [{'select': {'value': {'max': 'b'}}, 'from': 's'}, 'a']}, 'name': 'm'}),
           ('case', 'select', {'value': {'case': [{'when': {'gt': ['a', _n(1)]}, 'then': _l(1)}, _l(2)]}, 'name': 'x'})]

ON = {'eq': ['t.a', 's.b']}
SUB = {'select': [{'value': 'a'}], 'from': 's', 'where': {'lt': ['a', _n(7)]}}


def froms():
    yield 'table', 't'
    yield 'alias', {'value': 't', 'name': 'x'}
    yield 'two tables', ['t', {'value': 's', 'name': 'y'}]
    for j in JOINS:
        yield j, ['t', {j: 's', 'on': ON}]
        yield j + ' alias', [{'value': 't', 'name': 'x'}, {j: {'value': 's', 'name': 'y'}, 'on': {'and': [{'eq': ['x.a', 'y.b']}, {'gt': ['y.c', _n(8)]}]}}]
    yield 'using', ['t', {'join': 's', 'using': 'a'}]
    yield 'using several', ['t', {'left join': 's', 'using': ['a', 'b']}]
    yield 'cross', ['t', {'cross join': 's'}]
    yield 'three', ['t', {'join': 's', 'on': ON}, {'left join': {'value': 'u', 'name': 'z'}, 'on': {'or': [{'eq': ['s.a', 'z.a']}, {'missing': 'z.b'}]}}]
    yield 'comma and join', ['t', 'r', {'join': 's', 'on': {'eq': ['r.a', 's.b']}}]
    yield 'subquery', {'value': SUB, 'name': 'x'}
    yield 'subquery and table', ['t', {'value': SUB, 'name': 'x'}]
    yield 'join subquery', ['t', {'join': {'value': SUB, 'name': 'x'}, 'on': {'eq': ['t.a', 'x.a']}}]
    yield 'ordered subquery', {'value': dict(SUB, orderby={'value': 'a'}, limit=5), 'name': 'x'}
    yield 'union subquery', {'value': {'union_all': [SUB, {'select': {'value': 'b'}, 'from': 'u'}]}, 'name': 'x'}


CLAUSES = [('where', [{'where': {'gt': ['a', _n(1)]}}, {'where': {'or': [{'eq': ['a', _l(1)]}, {'and': [{'lt': ['b', _n(2)]}, {'missing': 'c'}]}]}}]),
           ('groupby', [{'groupby': {'value': 'a'}}, {'groupby': [{'value': 'a'}, {'value': {'year': 'b'}}]}]),
           ('having', [{'having': {'gt': [{'count': '*'}, _n(3)]}}]),
           ('orderby', [{'orderby': {'value': 'a'}}, {'orderby': [{'value': 'a', 'sort': 'desc'}, {'value': {'add': ['b', 'c']}, 'sort': 'asc'}, {'value': 'd'}]}]),
           ('limit', [{'limit': _n(4)}, {'limit': [_n(4), _n(5)]}, {'limit': _n(4), 'offset': _n(5)}])]


def clause_sets():
    for combo in itertools.product(*[[None] + alts for _, alts in CLAUSES]):
        d = {}
        for c in combo:
            d.update(c or {})
        yield d


def eval_sub(x, a, b):
    if x is a:
        return b
    if isinstance(x, dict):
        return {k: eval_sub(v, a, b) for k, v in x.items()}
    if isinstance(x, list):
        return [eval_sub(v, a, b) for v in x]
    return x


def selects(deep):
    sets = list(clause_sets())
    few = [d for d in sets if len(d) <= 1] + [sets[-1]]
    for name, key, sel in SELECTS:
        for d in sets if deep else few:
            yield 'select ' + name + ''.join(' ' + k for k in d), dict({key: sel, 'from': 't'}, **d)
    for d in sets:
        yield 'select' + ''.join(' ' + k for k in d), dict({'select': [{'value': 'a'}, {'value': 'b'}], 'from': 't'}, **d)
    for name, f in froms():
        for d in sets if deep else few:
            yield 'from ' + name + ''.join(' ' + k for k in d), dict({'select': '*', 'from': f}, **d)
    for lo, hi in itertools.product((None, -2, 0, 1), (None, -1, 0, 3)):
        r = {k: v for k, v in (('min', lo), ('max', hi)) if v is not None}
        yield 'window frame %s to %s' % (lo, hi), {'select': {'value': {'sum': 'a'}, 'over': {'orderby': {'value': 'c'}, 'range': r}}, 'from': 't'}
    sub = {'select': {'value': {'max': 'b'}}, 'from': 's', 'where': {'gt': ['b', _n(9)]}}
    for name, place in (('where', {'where': {'eq': ['a', sub]}}), ('having', {'having': {'gt': [{'count': '*'}, sub]}}),
                        ('orderby', {'orderby': {'value': sub, 'sort': 'desc'}}), ('groupby', {'groupby': {'value': sub}}),
                        ('between', {'where': {'between': ['a', sub, sub]}}), ('not in', {'where': {'nin': ['a', sub]}}),
                        ('all', {'where': {'gt': ['a', {'all': sub}]}}), ('any', {'where': {'eq': ['a', {'any': sub}]}}),
                        ('case', {'where': {'case': [{'when': {'gt': ['a', sub]}, 'then': sub}, sub]}}),
                        ('and', {'where': {'and': [{'lt': [sub, 'a']}, {'in': ['b', sub]}]}})):
        yield 'subquery in ' + name, dict({'select': '*', 'from': 't'}, **place)
        o = dict(sub, orderby={'value': 'b'}, limit=1)
        yield 'ordered subquery in ' + name, dict({'select': '*', 'from': 't'}, **eval_sub(place, sub, o))
    yield 'select without table', {'select': {'value': {'version': {}}}}
    q1, q2, q3 = [{'select': [{'value': c}], 'from': t} for c, t in (('a', 't'), ('b', 's'), ('c', 'u'))]
    tails = [d for d in sets if not set(d) & {'where', 'groupby', 'having'}]
    for op in ('union', 'union_all', 'except', 'intersect'):
        yield op, {op: [q1, q2]}
        yield op + ' conditions', {op: [dict(q1, where={'gt': ['a', _n(1)]}), dict(q2, groupby={'value': 'b'})]}
        yield op + ' in IN', {'select': '*', 'from': 't', 'where': {'in': ['a', {op: [q2, q3]}]}}
        yield op + ' in FROM', {'select': '*', 'from': {'value': {op: [q1, q2]}, 'name': 'x'}}
        for d in tails:
            if d:
                yield op + ' tail ' + ' '.join(d), dict({'from': {op: [q1, q2]}}, **d)
                yield op + ' left tail ' + ' '.join(d), {op: [dict(q1, **d), q2]}
                yield op + ' right tail ' + ' '.join(d), {op: [q1, dict(q2, **d)]}
    for op in ('union', 'union_all'):
        yield op + ' three', {op: [q1, q2, q3]}
        for o2 in ('union', 'union_all'):
            yield '%s of %s left' % (op, o2), {op: [{o2: [q1, q2]}, q3]}
            yield '%s of %s right' % (op, o2), {op: [q1, {o2: [q2, q3]}]}
    w = {'name': 'c', 'value': SUB}
    for d in [x for x in few]:
        yield 'with' + ''.join(' ' + k for k in d), dict({'with': w, 'select': '*', 'from': 'c'}, **d)
    yield 'with two', {'with': [w, {'name': 'd', 'value': dict(q2, limit=3)}], 'select': '*', 'from': ['c', 'd']}
    yield 'with union ordered', {'from': {'union_all': [{'select': '*', 'from': 'c'}, q2]}, 'orderby': {'value': 'a'}, 'limit': 3, 'with': w}
    yield 'with in subquery', {'select': '*', 'from': {'value': {'with': w, 'select': '*', 'from': 'c'}, 'name': 'x'}}
    yield 'with union in subquery', {'select': '*', 'from': {'value': {'with': w, 'union': [{'select': '*', 'from': 'c'}, q2]}, 'name': 'x'}}
    yield 'with in IN', {'select': '*', 'from': 't', 'where': {'in': ['a', {'with': w, 'select': '*', 'from': 'c'}]}}
    yield 'with of union', {'with': {'name': 'c', 'value': {'union': [q1, q2]}}, 'select': '*', 'from': 'c'}
    yield 'with union', {'with': w, 'union': [{'select': '*', 'from': 'c'}, q2]}
    yield 'nested', {'select': '*', 'from': {'value': {'select': '*', 'from': {'value': SUB, 'name': 'x'}, 'where': {'in': ['a', {'select': {'value': 'b'}, 'from': 'u', 'where': {'gt': ['b', _n(9)]}}]}}, 'name': 'y'}}


def writes():
    S = [('int', _n(1)), ('text', Sym('l1', 'str')), ('null', {'null': {}})]
    for (ta, a), (tb, b) in itertools.product(S, repeat=2):
        aj = {'literal': a} if ta == 'text' else a
        bj = {'literal': b} if tb == 'text' else b
        yield 'insert %s,%s' % (ta, tb), {'columns': ['a', 'b'], 'query': {'select': [{'value': aj}, {'value': bj}]}, 'insert': 't'}
        yield 'insert rows %s,%s' % (ta, tb), {'values': [{'a': a, 'b': b}, {'a': b, 'b': a}], 'insert': 't'} if 'null' not in (ta, tb) else \
            {'values': [{'a': None if ta == 'null' else a, 'b': None if tb == 'null' else b}], 'insert': 't'}
        yield 'insert row lists %s,%s' % (ta, tb), {'columns': ['a', 'b'], 'values': [[a if ta != 'null' else None, b if tb != 'null' else None]], 'insert': 't'}
    for t, a in S:
        aj = {'literal': a} if t == 'text' else a
        yield 'insert one column ' + t, {'columns': 'a', 'query': {'select': {'value': aj}}, 'insert': 't'}
        yield 'update ' + t, {'update': 't', 'set': {'a': aj}}
        yield 'update where ' + t, {'update': 't', 'set': {'a': aj, 'b': {'add': ['b', _n(2)]}}, 'where': {'or': [{'eq': ['c', _n(3)]}, {'like': ['d', _l(4)]}]}}
    yield 'insert without columns', {'query': {'select': [{'value': _n(1)}, {'value': _l(1)}]}, 'insert': 't'}
    yield 'insert expression', {'columns': ['a', 'b'], 'query': {'select': [{'value': {'add': [_n(1), _n(2)]}}, {'value': {'now': {}}}]}, 'insert': 't'}
    yield 'insert select', {'columns': ['a', 'b'], 'query': {'select': [{'value': 'c'}, {'value': 'd'}], 'from': 's', 'where': {'gt': ['c', _n(1)]}}, 'insert': 't'}
    yield 'insert select ordered', {'columns': ['a', 'b'], 'query': {'select': [{'value': 'c'}, {'value': 'd'}], 'from': 's', 'orderby': {'value': 'c'}, 'limit': 3}, 'insert': 't'}
    yield 'insert select union', {'columns': ['a'], 'query': {'union_all': [{'select': [{'value': 'c'}], 'from': 's'}, {'select': [{'value': 'd'}], 'from': 'u'}]}, 'insert': 't'}
    for d in ({}, {'where': {'eq': ['a', _n(1)]}}, {'where': {'and': [{'or': [{'eq': ['a', _l(1)]}, {'missing': 'b'}]}, {'in': ['c', [_n(1), _n(2)]]}]}}):
        yield 'delete' + ''.join(' ' + k for k in d), dict({'delete': 't'}, **d)
        yield 'update twice' + ''.join(' ' + k for k in d), dict({'update': 't', 'set': {'b': _n(5), 'a': {'select': {'value': {'max': 'b'}}, 'from': 's'}}}, **d)
    yield 'drop', {'drop': {'table': 't'}}
    yield 'drop if exists', {'drop': {'table': 't', 'if_exists': True}}


def check_S02(project, rep):
    fm = Fmt(project)
    for tag, js in itertools.chain(selects(rep.tier == 'thorough'), writes()):
        rep.count('statements')
        judge(fm, rep, tag, js, tag)
    rep.need('statements', 500)


# ---------------------------------------------------------------- quoting
CHARS = ["'", '\\', '"', '`', '\n', '%', '_', '\0', '\x1a', '\t', '-', '#', ';', ' ', '/', '*', 'a', 'n', 'Z', '0', '\u00e9', '\u4e2d']
KEYWORD = 'order'
NAMES = ['a b', 'a`b', '`', '``', 'a``', KEYWORD, '1a', '12', '1e5', 'a-b', 'a--b', 'a;b', 'a#b', 'a"b', "a'b", 'a\\b', 'a\\',
         '\u00e9t\u00e9', '\u4e2d', '$a', 'a$', 'a(b', 'a,b', 'a=b', ' a', 'a ', 'a/*b', '_a', 'A', 'a\n', '\na', 'a\tb', '%a', '@a',
         '```', 'a`b`c`d', '`a`', '``a``b``', '`' * 9, 'a`' * 40, 'x' * 200 + '`']


def literal_places(x):
    yield 'condition', {'select': '*', 'from': 't', 'where': {'eq': ['a', {'literal': x}]}}
    yield 'LIKE', {'select': '*', 'from': 't', 'where': {'like': ['a', {'literal': x}]}}
    yield 'IN', {'select': '*', 'from': 't', 'where': {'in': ['a', {'literal': [x, 'z']}]}}
    yield 'IN one', {'select': '*', 'from': 't', 'where': {'in': ['a', {'literal': x}]}}
    yield 'select item', {'select': [{'value': {'literal': x}, 'name': 'y'}, {'value': 'b'}], 'from': 't'}
    yield 'function argument', {'select': {'value': {'concat': ['a', {'literal': x}]}}, 'from': 't'}
    yield 'INSERT', {'columns': ['a', 'b'], 'query': {'select': [{'value': {'literal': x}}, {'value': {'literal': 'z'}}]}, 'insert': 't'}
    yield 'INSERT rows', {'values': [{'a': x, 'b': 'z'}, {'a': 'y', 'b': x}], 'insert': 't'}
    yield 'INSERT row lists', {'columns': ['a', 'b'], 'values': [[x, 'z']], 'insert': 't'}
    yield 'UPDATE', {'update': 't', 'set': {'a': {'literal': x}}, 'where': {'neq': ['a', {'literal': x}]}}
    yield 'DELETE', {'delete': 't', 'where': {'eq': ['a', {'literal': x}]}}


def name_places(x):
    yield 'select item', {'select': [{'value': x}, {'value': 'b'}], 'from': 't'}
    yield 'qualified', {'select': [{'value': 'q.' + x}, {'value': 'b'}], 'from': 'q'}
    yield 'alias', {'select': [{'value': 'a', 'name': x}], 'from': 't'}
    yield 'condition', {'select': '*', 'from': 't', 'where': {'gt': [x, Sym('n1', 'int')]}}
    yield 'table', {'select': '*', 'from': x}
    yield 'table qualifier', {'select': '*', 'from': 'q.' + x}
    yield 'table alias', {'select': '*', 'from': {'value': 't', 'name': x}}
    yield 'joined table', {'select': '*', 'from': ['t', {'join': x, 'on': ON}]}
    yield 'USING', {'select': '*', 'from': ['t', {'join': 's', 'using': x}]}
    yield 'GROUP BY', {'select': '*', 'from': 't', 'groupby': {'value': x}}
    yield 'ORDER BY', {'select': '*', 'from': 't', 'orderby': {'value': x, 'sort': 'desc'}}
    yield 'function argument', {'select': {'value': {'sum': x}}, 'from': 't'}
    yield 'common table expression', {'with': {'name': x, 'value': SUB}, 'select': '*', 'from': x}
    yield 'INSERT table', {'columns': ['a', 'b'], 'query': {'select': [{'value': Sym('n1', 'int')}, {'value': Sym('n2', 'int')}]}, 'insert': x}
    yield 'INSERT column', {'columns': ['a', x], 'query': {'select': [{'value': Sym('n1', 'int')}, {'value': Sym('n2', 'int')}]}, 'insert': 't'}
    yield 'INSERT row column', {'values': [{x: Sym('n1', 'int')}], 'insert': 't'}
    yield 'UPDATE table', {'update': x, 'set': {'a': Sym('n1', 'int')}}
    yield 'UPDATE column', {'update': 't', 'set': {x: Sym('n1', 'int')}}
    yield 'DELETE', {'delete': x, 'where': {'gt': ['a', Sym('n1', 'int')]}}
    yield 'DROP', {'drop': {'table': x}}


def replace_chain(term, sym):
    """is the text made of constants and the symbol under one-character replacements only?"""
    if isinstance(term, K) or term == sym:
        return True
    if isinstance(term, T) and term.op == 'cat':
        return all(replace_chain(a, sym) for a in term.args)
    if isinstance(term, T) and term.op == 'call' and term.args[0] == K('replace') and len(term.args[2].items) == 2:
        a, b = term.args[2].items
        return isinstance(a, K) and isinstance(b, K) and len(a.v) == 1 and replace_chain(term.args[1], sym)
    return False


def check_S03(project, rep):
    fm = Fmt(project, keywords=RES)
    l = Sym('l', 'str')
    width = 2
    for tag, js in literal_places(l):
        for v, st in fm.texts(js):
            if isinstance(v, Exc) or not replace_chain(v, l):
                width = 3
    rep.count('literal_homomorphism', int(width == 2))
    for n in range(0, width + 1):
        for cs in itertools.product(CHARS if n < 3 else CHARS[:12], repeat=n):
            x = ''.join(cs)
            for i, (tag, js) in enumerate(literal_places(x)):
                if n == width and width == 3 and i not in (0, 7) or n == 2 and i > 0 and tag != 'INSERT rows' and rep.tier != 'thorough':
                    continue
                rep.count('literals')
                judge(fm, rep, 'string constant in %s: %s' % (tag, cls(x)), js, 'the string %r in %s' % (x, tag))
    for i in range(1, 0x7f):
        c = chr(i)
        if c in '.\b*':
            continue
        for x in (c, 'a' + c, c + 'a', 'a' + c + 'b', 'a' + c + c):
            rep.count('names')
            judge(fm, rep, 'identifier: %s' % cls(x), {'select': [{'value': x}, {'value': 'b', 'name': x}], 'from': x}, 'the name %r' % x)
    for x in NAMES:
        for tag, js in name_places(x):
            rep.count('names')
            judge(fm, rep, 'identifier in %s: %s' % (tag, cls(x)), js, 'the name %r in %s' % (x, tag))
    rep.need('literals', 800)
    rep.need('names', 1000)


def cls(x):
    """the kind of text: letters and digits as themselves, everything else named"""
    return ' '.join(c if c.isalnum() or c in '_`' else 'U+%04X' % ord(c) for c in x) or 'empty'
