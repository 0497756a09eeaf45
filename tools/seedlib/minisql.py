"""A backend for the demonstrations of SUM and AVG: runs the statements the gateway sends (SET of session variables,
SELECT from one table with simple conditions) over a table of concrete rows."""
import re

TOK = re.compile(r"""\s+|(?P<str>'(?:[^'\\]|''|\\.)*')|(?P<var>@`?\w+`?)|(?P<num>\d+)|(?P<id>`[^`]+`|\w+)"""
                 r"""|(?P<op>:=|<>|!=|<=|>=|[-+*/%(),.=<>])""")


class MySQL:
    def __init__(self, tables):
        self.tables, self.vars = tables, {}

    def run(self, text):
        text = text.strip().rstrip(';')
        i, self.t, self.i = 0, [], 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise SyntaxError(text[i:])
            if m.lastgroup:
                self.t.append((m.lastgroup, m.group().strip('`') if m.lastgroup == 'id' else m.group()))
            i = m.end()
        self.t.append(('end', ''))
        if self.eat('SET'):
            todo = []
            while True:
                v = self.next()[1].lower()
                self.next()
                todo.append((v, self.expr()))
                if not self.eat(','):
                    break
            self.end()
            for v, e in todo:
                self.vars[v] = self.ev(e, None)
            return []
        q = self.select()
        self.end()
        return self.rows(q)

    def end(self):
        if self.t[self.i][0] != 'end':
            raise SyntaxError('near %r' % (self.t[self.i:self.i + 4],))

    def word(self):
        return self.t[self.i][1].upper() if self.t[self.i][0] in ('id', 'op') else None

    def eat(self, w):
        if self.word() == w:
            self.i += 1
            return True

    def need(self, w):
        if not self.eat(w):
            raise SyntaxError('%s expected at %r' % (w, self.t[self.i:self.i + 4]))

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def select(self):
        self.need('SELECT')
        q = {'cols': [], 'names': [], 'where': None, 'order': None, 'limit': None}
        while True:
            e = self.expr()
            q['cols'].append(e)
            q['names'].append(self.next()[1] if self.eat('AS') else None)
            if not self.eat(','):
                break
        self.need('FROM')
        if self.eat('('):
            q['from'] = self.select()
            self.need(')')
            self.next()
        else:
            q['from'] = self.next()[1]
        if self.eat('WHERE'):
            q['where'] = self.disj()
        if self.eat('ORDER'):
            self.need('BY')
            e = self.expr()
            q['order'] = (e, bool(self.eat('DESC')))
        if self.eat('LIMIT'):
            q['limit'] = int(self.next()[1])
        return q

    def disj(self):
        a = self.conj()
        while self.eat('OR'):
            a = ('or', a, self.conj())
        return a

    def conj(self):
        a = self.test()
        while self.eat('AND'):
            a = ('and', a, self.test())
        return a

    def test(self):
        save = self.i
        if self.eat('('):
            try:
                c = self.disj()
                self.need(')')
                if c[0] in ('or', 'and', 'cmp', 'null'):
                    return c
            except SyntaxError:
                pass
            self.i = save
        a = self.expr()
        if self.eat('IS'):
            no = bool(self.eat('NOT'))
            self.need('NULL')
            return ('null', a, no)
        return ('cmp', self.next()[1], a, self.expr())

    def expr(self):
        if self.t[self.i][0] == 'var' and self.t[self.i + 1][1] == ':=':
            v = self.next()[1].lower()
            self.next()
            return ('assign', v, self.expr())
        a = self.unit()
        while self.word() in ('*', '%', '+'):
            o = self.next()[1]
            b = self.unit()
            while o == '+' and self.word() in ('*', '%'):
                b = (self.next()[1], b, self.unit())
            a = (o, a, b)
        return a

    def unit(self):
        k, v = self.next()
        if k == 'num':
            return ('k', int(v))
        if k == 'str':
            return ('k', re.sub(r"''|\\(.)", lambda m: m.group(1) or "'", v[1:-1]))
        if k == 'var':
            return ('var', v.lower())
        if v == '(':
            e = ('sub', self.select()) if self.word() == 'SELECT' else self.expr()
            self.need(')')
            return e
        if k != 'id':
            raise SyntaxError('near %r' % v)
        if self.eat('('):
            f, a = v.upper(), []
            if self.eat('*'):
                a = ['*']
            else:
                a.append(self.expr())
                while self.eat(','):
                    a.append(self.expr())
            self.need(')')
            return ('call', f, a)
        while self.eat('.'):
            v = self.next()[1]
        return ('col', v)

    AGG = ('COUNT', 'SUM', 'AVG', 'MIN', 'MAX')

    def rows(self, q):
        if isinstance(q['from'], dict):
            src = [dict(zip(q['from']['names'], r)) for r in self.rows(q['from'])]
        else:
            src = self.tables[q['from']]
        src = [r for r in src if q['where'] is None or self.ev(q['where'], r)]
        if any(e[0] == 'call' and e[1] in self.AGG for e in q['cols']):
            out = [([self.agg(e, src) for e in q['cols']], 0)]
        else:
            out = []
            for r in src:
                cells = [self.ev(e, r) for e in q['cols']]
                k = q['order'][0] if q['order'] else ('k', 0)
                k = cells[q['names'].index(k[1])] if k[0] == 'col' and k[1] in q['names'] else self.ev(k, r)
                out.append((cells, k))
            out.sort(key=lambda x: x[1], reverse=bool(q['order'] and q['order'][1]))
        return [tuple(r) for r, _ in out][:q['limit']]

    def agg(self, e, src):
        if not (e[0] == 'call' and e[1] in self.AGG):
            return self.ev(e, src[0] if src else {})
        if e[2] == ['*']:
            return len(src)
        v = [x for x in (self.ev(e[2][0], r) for r in src) if x is not None]
        if e[1] == 'COUNT' or not v:
            return len(v) if e[1] == 'COUNT' else None
        return {'SUM': sum, 'MIN': min, 'MAX': max, 'AVG': lambda v: sum(v) / len(v)}[e[1]](v)

    def ev(self, e, r):
        k = e[0]
        if k == 'k':
            return e[1]
        if k == 'var':
            return self.vars.get(e[1])
        if k == 'assign':
            self.vars[e[1]] = v = self.ev(e[2], r)
            return v
        if k == 'sub':
            x = self.rows(e[1])
            return x[0][0] if x else None
        if k == 'col':
            return (r or {}).get(e[1])
        if k == 'or':
            return self.ev(e[1], r) or self.ev(e[2], r)
        if k == 'and':
            return self.ev(e[1], r) and self.ev(e[2], r)
        if k == 'null':
            return (self.ev(e[1], r) is None) != e[2]
        if k == 'call':
            a = [self.ev(x, r) for x in e[2]]
            if e[1] == 'CONCAT':
                return None if None in a else ''.join(map(str, a))
            if e[1] in ('IFNULL', 'COALESCE'):
                return next((x for x in a if x is not None), None)
            if e[1] == 'IF':
                return a[1] if a[0] else a[2]
            raise SyntaxError(e[1])
        a, b = self.ev(e[-2], r), self.ev(e[-1], r)
        if a is None or b is None:
            return None
        o = e[1] if k == 'cmp' else k
        return {'*': lambda: a * b, '%': lambda: a % b, '+': lambda: a + b, '=': lambda: a == b, '<': lambda: a < b,
                '>': lambda: a > b, '<>': lambda: a != b, '!=': lambda: a != b, '<=': lambda: a <= b,
                '>=': lambda: a >= b}[o]()
