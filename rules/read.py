"""S04: constants, names, comments and operators are read as MySQL reads them.

The grammar is a value the source builds with a combinator library.  The abstract interpreter evaluates the modules that
build it with a recording stand-in for that library (sa/stubs), which makes the grammar a data structure: alternatives,
regular expressions with their actions, ignored text, operator levels.  That structure is compared with MySQL's rules,
and the actions are propagated over the tokens they can be handed."""
import itertools
import os
import re

from sa.absint import Interp, AnalysisError
from sa.project import Module
from sa.values import *

STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'stubs')
LIB = 'parsing'


class Node:
    """an element of the grammar"""
    def __init__(self, oid):
        self.oid, self.args = oid, []

    def walk(self, seen=None):
        seen = set() if seen is None else seen
        if self.oid in seen:
            return
        seen.add(self.oid)
        yield self
        for a in self.args:
            if isinstance(a, Node):
                yield from a.walk(seen)


class Grammar:
    def __init__(self, project):
        src = {n: open(os.path.join(STUBS, n + '.py'), encoding='utf-8').read() for n in ('combinators', 'imports')}
        project.modules = dict(project.modules)
        if LIB not in project.modules:
            raise AnalysisError('the combinator library is gone')
        for n in [m for m in project.modules if m == LIB or m.startswith(LIB + '.')]:
            project.modules[n] = Module(n, '<stub>', '<stub>',
                                        src['combinators'] if n == LIB else 'from %s import *\n' % LIB, n == LIB)
        project.modules['imports'] = Module('imports', '<stub>', '<stub>', src['imports'], True)
        self.I = Interp(project)
        self.cache = {}
        self.calls = 0
        ok = [s for v, s in self.I.import_module('sql_parsing', State()) if not isinstance(v, Exc)]
        if not ok:
            raise AnalysisError('sql_parsing cannot be imported in the model')
        st = ok[0]
        r = self.parse(None, st)
        if len(r) != 1 or isinstance(r[0][0], Exc):
            raise AnalysisError('the grammar cannot be evaluated: %r' % (r[:2],))
        self.st = r[0][1]
        rec = self.items('PARSED')
        if not rec:
            raise AnalysisError('parse_mysql does not reach parse_string of a grammar')
        root, text, whole = rec[-1].items
        self.root, self.whole = self.node(root), whole
        self.engines = [[self.node(x) for x in self.st.heap[self.st.heap[e.oid].attrs['ignored'].oid].items]
                        for e in self.items('ENGINES')]
        self.infix = [n for n in self.root.walk() if n.kind == 'infix' and n.args[1]]

    def items(self, name):
        return self.st.heap[self.I.mod_get(LIB, name, self.st).oid].items

    def parse(self, tree, st):
        """what parse_mysql makes of a tree the grammar yields"""
        t = self.I.mod_get(LIB, 'TREE', st)
        o = st.heap[t.oid]
        st.heap[t.oid] = HList(o.kind, (NONE if tree is None else tree,))
        self.calls += 1
        return self.I.call(self.I.mod_get('sql_parsing', 'parse_mysql', st), [K('select 1')], {}, st, None, None)

    def node(self, ref):
        if ref.oid in self.cache:
            return self.cache[ref.oid]
        o = self.st.heap[ref.oid]
        if not isinstance(o, HInst) or 'kind' not in o.attrs:
            raise AnalysisError('not a grammar element: %r' % (o,))
        n = self.cache[ref.oid] = Node(ref.oid)
        n.ref, n.kind, n.name = ref, o.attrs['kind'].v, o.attrs['parser_name']
        n.name = n.name.v if isinstance(n.name, K) else None
        n.action = o.attrs['action'] if o.attrs['action'] != NONE else None
        n.args = [self.value(a) for a in self.st.heap[o.attrs['args'].oid].items]
        if n.kind == 'and':
            n.args = [b for a in n.args for b in (a.args if isinstance(a, Node) and a.kind == 'and' and a.action is None
                                                  and not a.name else [a])]
        return n

    def value(self, v):
        if isinstance(v, K):
            return v.v
        if isinstance(v, Tup):
            return tuple(self.value(x) for x in v.items)
        if isinstance(v, Ref):
            o = self.st.heap[v.oid]
            if isinstance(o, HInst) and 'kind' in o.attrs:
                return self.node(v)
            if isinstance(o, HList):
                return [self.value(x) for x in o.items]
        return v

    # ---- actions
    def leaf(self, text, node, st):
        f = self.I.mod_get(LIB, 'Leaf', st)
        return self.I.call(f, [lift(text, st), node.ref if isinstance(node, Node) else NONE], {}, st, None, None)[0][0]

    def tokens(self, toks, node, st):
        f = self.I.mod_get(LIB, 'ParseResults', st)
        return self.I.call(f, [node.ref if isinstance(node, Node) else NONE, K(0), K(0), st.list(toks), NONE], {}, st,
                           None, None)[0][0]

    def act(self, action, tok, st):
        """-> [(value | Exc, st)]; None leaves the tokens as they are"""
        args = [tok, K(0), K('text')]
        if isinstance(action, Fn):
            a = action.node.args
            n = 3 if a.vararg else len(a.args)
            if n and a.args and a.args[0].arg in ('self', 'cls'):
                n -= 1
            args = args[:n]
        else:
            args = args[:1]
        self.calls += 1
        return self.I.call(action, args, {}, st, None, None)


def alternatives(n, through=('first', 'longest')):
    """the alternatives of an element in order"""
    if n.kind in through and n.action is None:
        for a in n.args:
            yield from alternatives(a, through)
    else:
        yield n


def pattern(n):
    """the regular expression of an element that is text only, or None"""
    if n.kind == 'regex':
        return n.args[0]
    if n.kind in ('literal', 'keyword'):
        return re.escape(n.args[0])
    if n.kind == 'char':
        return '[' + re.escape(n.args[0]) + ']'
    if n.kind in ('act', 'suppress', 'group', 'combine', 'key') and n.args:
        return pattern(n.args[0])
    if n.kind == 'and':
        ps = [pattern(a) if isinstance(a, Node) else re.escape(a) for a in n.args]
        return None if None in ps else ''.join('(?:%s)' % p for p in ps)
    return None


def actions(n):
    """the actions of a text element, innermost first"""
    if n.kind in ('act', 'suppress', 'group', 'combine', 'key') and n.args and isinstance(n.args[0], Node):
        return actions(n.args[0]) + ([n.action] if n.action is not None else [])
    return [n.action] if n.action is not None else []


def evaluate(g, n, text):
    """the values a text element yields for a text: [lowered value], or 'error'"""
    st = g.st.copy()
    cur = [(lift(text, st), st)]
    for a in actions(n):
        nxt = []
        for v, s in cur:
            if isinstance(v, Exc):
                nxt.append((v, s))
                continue
            tok = g.tokens([g.leaf(lower(v, s) if isinstance(v, K) else v, n, s)], n, s)
            for w, s2 in g.act(a, tok, s):
                nxt.append((v if w == NONE else w, s2))
        cur = nxt
    return ['error' if isinstance(v, Exc) else lower(v, s) for v, s in cur]


# ---- MySQL's lexical rules, written from the manual
ESC = {'0': '\0', 'b': '\b', 'n': '\n', 'r': '\r', 't': '\t', 'Z': '\x1a', '%': '\\%', '_': '\\_'}


def mysql_string(text):
    """the value of a quoted constant that is all of `text`, or None"""
    if len(text) < 2 or text[0] not in '\'"':
        return None
    q, acc, i = text[0], '', 1
    while i < len(text):
        c = text[i]
        if c == '\\':
            if i + 1 >= len(text):
                return None
            acc += ESC.get(text[i + 1], text[i + 1])
            i += 2
        elif c == q:
            if text[i + 1:i + 2] == q:
                acc += q
                i += 2
            else:
                return acc if i == len(text) - 1 else None
        else:
            acc += c
            i += 1
    return None


def mysql_number(text):
    return float(text) if re.fullmatch(r'[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?', text) else None


def mysql_comment(text):
    """the length of the comment `text` begins with, 0 when it does not begin with one, None when it does not end"""
    m = re.match(r'#[^\n]*|--(?=\s|$)[^\n]*', text)
    if m:
        return m.end()
    if text.startswith('/*') and text[2:3] != '!':
        i = text.find('*/', 2)
        return i + 2 if i >= 0 else None
    return 0


def ignored(n, text):
    """the length of the ignored text `text` begins with; 0: none; None: unfinished"""
    if n.kind == 'rest':
        m = re.match(r'[^\n]*', text)
        return m.end()
    if n.kind == 'skip':
        a = n.args[0]
        end = a if isinstance(a, str) else pattern(a)
        i = text.find(end) if isinstance(a, str) else (lambda m: m.start() if m else -1)(re.search(end, text))
        if i < 0:
            return None
        return i + (len(end) if isinstance(a, str) else re.search(pattern(a), text).end() - i)
    if n.kind == 'and':
        pos = 0
        for k, a in enumerate(n.args):
            if isinstance(a, str):
                r = len(a) if text.startswith(a, pos) else 0
            else:
                p = pattern(a)
                if p is not None:
                    # lookahead has to see what follows
                    m = re.compile(p).match(text, pos)
                    r = m.end() - pos if m else 0
                else:
                    r = ignored(a, text[pos:])
                    if r is None:
                        return None
                    pos += r
                    continue
            if not r:
                return 0
            pos += r
        return pos
    p = pattern(n)
    if p is None:
        raise AnalysisError('ignored element of kind %s' % n.kind)
    m = re.match(p, text)
    return m.end() if m else 0


def texts(alphabet, n):
    for k in range(1, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield ''.join(t)


def operand_texts(g):
    """the alternatives of an operand that are one text with a value, in order"""
    if len(g.infix) != 1:
        raise AnalysisError('%d operator tables found, expected one' % len(g.infix))
    return list(alternatives(g.infix[0].args[0]))


def first_match(alts, text):
    """the first alternative that is text and matches the beginning of `text`, with the length it takes"""
    for a in alts:
        p = pattern(a)
        if p is None:
            continue
        if a.kind == 'and' or any(x.kind == 'keyword' for x in a.walk()):
            continue
        m = re.compile(p).match(text)
        if m:
            return a, m.end()
    return None, 0


def check_strings(g, rep, tier):
    alts = operand_texts(g)
    n = 4 if tier == 'thorough' else 3
    alphabet = ['a', '\\', '"', "'", 'n', '%', '0', ' ', 'Z'] if tier == 'thorough' else ['a', '\\', '"', "'", 'n', '%']
    todo = ['']
    todo += texts(alphabet, n)
    todo += ['\\' + chr(c) for c in range(32, 127)] + ['\\\n', '\n', '\t', '.', '\u00e9', '\u4e2d']
    for body in todo:
        for q in '\'"':
            t = q + body + q
            want = mysql_string(t)
            a, k = first_match(alts, t)
            if want is None:
                rep.check(a is None or k < len(t) or 'error' in evaluate(g, a, t), 'read string %s' % ascii(t),
                          '%s is read as one constant; MySQL does not read it so' % ascii(t))
                continue
            rep.count('string constants')
            if a is None or k != len(t):
                rep.bad('read string %s' % ascii(t), '%s is not read as one constant' % ascii(t))
                continue
            got = evaluate(g, a, t)
            rep.check(got == [{'literal': want}], 'read string %s' % ascii(t),
                      '%s is read as %s, MySQL reads %s' % (ascii(t), ascii(got), ascii(want)),
                      '%s -> %s' % (ascii(t), ascii(want)))
    rep.need('string constants', 100)


def check_numbers(g, rep, tier):
    alts = operand_texts(g)
    for t in texts('10.e-E+' if tier == 'thorough' else '10.e-', 6 if tier == 'thorough' else 5):
        want = mysql_number(t)
        if want is None or t[:1] in '+-' or want == float('inf'):
            continue
        rep.count('number constants')
        a, k = first_match(alts, t)
        if a is None or k != len(t):
            rep.bad('read number %s' % t, '%s is not read as one number (%s)' % (t, t[:k]))
            continue
        got = evaluate(g, a, t)
        exact = re.fullmatch(r'\d+', t)
        rep.check(len(got) == 1 and isinstance(got[0], (int, float)) and not isinstance(got[0], bool)
                  and got[0] == want and (not exact or isinstance(got[0], int)), 'read number %s' % t,
                  '%s is read as %r' % (t, got), '%s -> %r' % (t, want))
    for t in ('9007199254740993', '123456789012345678901234567890'):
        a, k = first_match(alts, t)
        rep.check(a is not None and evaluate(g, a, t) == [int(t)], 'read number %s' % t, '%s is not read exactly' % t)
    for t in ('0x1F', '0xabCD'):
        a, k = first_match(alts, t)
        rep.check(a is not None and k == len(t) and evaluate(g, a, t) == [{'hex': t[2:]}], 'read hex %s' % t,
                  '%s is not read as the hexadecimal constant' % t)
    rep.need('number constants', 50)


def check_names(g, rep, tier):
    names = [n for n in g.root.walk() if n.kind == 'list' and len(n.args) > 1 and n.args[1] == '.'
             and isinstance(n.args[0], Node) and any(pattern(a) for a in alternatives(n.args[0]))]
    if not names:
        raise AnalysisError('no dotted name found in the grammar')
    for nm in {n.oid: n for n in names}.values():
        alts = list(alternatives(nm.args[0]))
        todo = list(texts(['a', '`', '.', ' ', '-', '"', '\\'], 3)) + [chr(c) for c in range(32, 127)] + ['\u00e9\u4e2d']
        for body in todo:
            t = '`' + body + '`'
            if re.search('`', body.replace('``', '')):
                continue
            rep.count('names')
            want = body.replace('``', '`').replace('.', '\\.')
            a, k = first_match(alts, t)
            got = evaluate(g, a, t) if a is not None and k == len(t) else None
            rep.check(got == [want], 'read name %s' % ascii(t), 'the name %s is read as %s' % (ascii(t), ascii(got)))
        for t in ['a', 'A', '_', '_a', 'a_1', 'tAbLe_9', 'x$', 'abc']:
            rep.count('names')
            a, k = first_match(alts, t)
            got = evaluate(g, a, t) if a is not None and k == len(t) else None
            rep.check(got == [t], 'read name %s' % t, 'the name %s is read as %s' % (t, ascii(got)))
    rep.need('names', 100)


def check_comments(g, rep, tier):
    eng = [e for e in g.engines if e]
    if not eng:
        raise AnalysisError('the grammar ignores no comments')
    for e in eng:
        for t in texts('-#/*! \na', 6 if tier == 'thorough' else 5):
            want = mysql_comment(t)
            got = 0
            for n in e:
                r = ignored(n, t)
                if r is None:
                    got = None
                elif r:
                    got = r
                    break
            rep.count('comment texts')
            rep.check(got == want or not got and not want, 'comment %s' % ascii(t),
                      'after %s the reader ignores %r characters, MySQL %r' % (ascii(t), got, want))
    rep.need('comment texts', 1000)


# ---- operators
UNARY = {'-': 'neg', '~': 'binary_not', 'not': 'not'}
BINARY = {'*': 'mul', '/': 'div', '%': 'mod', '+': 'add', '-': 'sub', '&': 'binary_and', '|': 'binary_or', '<': 'lt',
          '<=': 'lte', '>': 'gt', '>=': 'gte', '=': 'eq', '!=': 'neq', '<>': 'neq', 'in': 'in', 'not in': 'nin',
          'like': 'like', 'not like': 'not_like', 'rlike': 'rlike', 'not rlike': 'not_rlike', 'and': 'and', 'or': 'or',
          '||': 'or', 'is': 'is', 'is not': 'is_not', 'collate': 'collate', '<=>': 'eq!'}
TERNARY = {('between', 'and'): 'between', ('not between', 'and'): 'not_between'}
RANK = {}
for rank, ops in enumerate([['collate'], [('u', '-'), ('u', '~')], ['*', '/', '%'], ['+', '-'], ['&'], ['|'],
                            ['in', 'not in', 'like', 'not like', 'rlike', 'not rlike', ('between', 'and'),
                             ('not between', 'and')],
                            ['<', '<=', '>', '>=', '=', '!=', '<>', '<=>', 'is', 'is not'], [('u', 'not')], ['and'],
                            ['or', '||']]):
    for o in ops:
        RANK[o] = rank
REQUIRED = set(RANK)


def spellings(n):
    """[(text, token maker)] of an operator element, in the order they are tried"""
    if n.kind in ('literal', 'keyword'):
        return [(n.args[0].lower(), n)]
    if n.kind in ('first', 'longest'):
        return [x for a in n.args for x in spellings(a)]
    if n.kind == 'act':
        return [(t, n) for t, m in spellings(n.args[0])]
    if n.kind == 'and':
        return [(' '.join(x[0] for x in c), n) for c in itertools.product(*[spellings(a) for a in n.args])]
    if n.kind == 'group':
        return [(t, n) for t, m in spellings(n.args[0])]
    if n.kind in ('suppress', 'key'):
        return [(t, n) for t, m in spellings(n.args[0])]
    return []


def token(g, n, text, name, st):
    """the token an operator element hands on"""
    if n.kind == 'group':
        parts = [g.leaf(w, n, st) for w in text.split(' ')]
        return g.tokens(parts, n, st)
    if n.kind == 'act':
        inner = token(g, n.args[0], text, name, st)
        tok = g.tokens([inner], n, st)
        r = g.act(n.action, tok, st)
        if len(r) != 1 or isinstance(r[0][0], Exc):
            raise AnalysisError('the action of the operator %s cannot be evaluated' % text)
        v = r[0][0]
        return g.leaf(v, n if n.name else name, st) if v != NONE else inner
    if n.kind == 'and' and len(n.args) == 1:
        return g.leaf(text, n, st)
    return g.leaf(text, name if isinstance(name, Node) and not n.name else n, st)


COL = 'mysql identifier'


def operands(g, st):
    null = g.I.mod_get('sql_parsing.utils', 'SQL_NULL', st)
    return {'a': K('a'), 'b': K('b'), 'c': K('c'), 'null': null, 'true': TRUE, '1': K(1), '2': K(2),
            's': st.dict({K('literal'): K('s')}), '0': K(0), '0.0': K(0.0), 'false': FALSE,
            "''": st.dict({K('literal'): K('')})}


JS = {'a': 'a', 'b': 'b', 'c': 'c', 'null': {'null': {}}, 'true': True, '1': 1, '2': 2, 's': {'literal': 's'},
      '0': 0, '0.0': 0.0, 'false': False, "''": {'literal': ''}}


def expected(kind, text, xs):
    if kind == 1:
        if text == '-' and isinstance(JS[xs[0]], (int, float)):
            return [{'neg': JS[xs[0]]}, -JS[xs[0]]]
        return [{UNARY[text]: JS[xs[0]]}]
    if kind == 3:
        return [{TERNARY[text]: [JS[x] for x in xs]}]
    op = BINARY[text]
    l, r = [JS[x] for x in xs]
    if op == 'is' and xs[1] == 'null':
        return [{'missing': l}]
    if op == 'is_not' and xs[1] == 'null':
        return [{'exists': l}]
    if op == 'eq!' and 'null' in xs:
        return [{'missing': l if xs[1] == 'null' else r}]
    return [{op: [l, r]}]


def check_operators(g, rep, tier):
    if len(g.infix) != 1:
        raise AnalysisError('%d operator tables found, expected one' % len(g.infix))
    spec = g.infix[0].args[1]
    levels = []
    for i, (op, arity, assoc, handler) in enumerate(spec):
        if isinstance(op, tuple):
            sp = [(tuple(c), None) for c in itertools.product(*[[t for t, _ in spellings(o)] for o in op])]
        else:
            sp = spellings(op)
        keys = []
        for t, n in sp:
            k = ('u', t) if arity == 1 and ('u', t) in RANK else t
            if arity == 1 and t not in UNARY:
                continue
            keys.append(k)
            if k in RANK:
                levels.append((i, k, t, n, op, arity, assoc, handler))
        # the first alternative that matches is taken
        for x in range(len(sp)):
            for y in range(x):
                a, b = sp[y][0], sp[x][0]
                if isinstance(a, str) and isinstance(b, str) and a != b and b.startswith(a) and not a[0].isalpha():
                    rep.bad('operator %s before %s' % (a, b), 'in one operator level %s is tried before %s: the longer '
                            'operator is never read' % (a, b))
    seen = {}
    for lv in levels:
        if lv[1] in seen:
            rep.bad('operator %s' % (lv[1],), 'the operator %s occurs in two levels' % (lv[1],))
        seen.setdefault(lv[1], lv)
    for k in sorted(REQUIRED, key=str):
        rep.check(k in seen, 'operator %s' % (k,), 'MySQL\'s operator %s is not read' % (k,))
    for a, b in itertools.permutations(sorted(seen, key=str), 2):
        if RANK[a] < RANK[b]:
            rep.count('pairs of operators')
            rep.check(seen[a][0] < seen[b][0], 'operators %s and %s' % (a, b),
                      '%s binds tighter than %s for MySQL, not for the reader' % (a, b))
        elif RANK[a] == RANK[b] and str(a) < str(b) and a not in (('u', '-'), ('u', '~')):
            # predicates take no predicates as operands: their order is of no consequence
            if RANK[a] != RANK['in']:
                rep.count('pairs of operators')
                rep.check(seen[a][0] == seen[b][0], 'operators %s and %s' % (a, b),
                          '%s and %s are read from left to right by MySQL, not by the reader' % (a, b))
    rep.need('pairs of operators', 300)
    vals, falsy = ['a', 'b', '1', 's', 'null', 'true'], ['0', '0.0', 'false', "''"]
    for k, (i, _, text, n, op, arity, assoc, handler) in sorted(seen.items(), key=lambda kv: str(kv[0])):
        rep.check(assoc == ('right' if arity == 1 else 'left'), 'operator %s associates' % (k,),
                  'the operator %s is read from the wrong side' % (k,))
        if arity == 1:
            cases = [(x,) for x in vals + falsy if not (text == '-' and x in ('null', 'true', 'false', "''"))]
        elif arity == 3:
            cases = [('a', '1', '2'), ('a', 'b', 'c'), ('1', 'a', 'b'), ('a', 'null', '2'), ('a', '0', '0.0'), ('0', "''", 'false')]
        else:
            cases = [(x, y) for x in vals for y in vals if x != y] + \
                [c for x in falsy for c in (('a', x), (x, 'a'), (x, 'null'), ('null', x))]
        for xs in cases:
            st = g.st.copy()
            ops = operands(g, st)
            val = [g.leaf(ops[x], g.node(op[0].ref) if isinstance(op, tuple) else op, st) for x in xs]
            # operands are not named after an operator
            val = [plain(g, ops[x], st) for x in xs]
            if arity == 1:
                toks = [token(g, n, text, op, st), val[0]]
            elif arity == 3:
                toks = [val[0], token(g, op[0], text[0], op[0], st), val[1], token(g, op[1], text[1], op[1], st), val[2]]
            else:
                toks = [val[0], token(g, n, text, op, st), val[1]]
            got = []
            for v, s in g.act(handler, g.tokens(toks, None, st), st):
                if isinstance(v, Exc):
                    got.append('error')
                    continue
                for w, s2 in g.parse(v, s):
                    got.append('error' if isinstance(w, Exc) else lower(w, s2))
            want = expected(arity, text, xs)
            rep.count('operator applications')
            rep.check(len(got) == 1 and any(same(got[0], w) for w in want), 'operator %s of %s' % (k, ', '.join(xs)),
                      '%s of %s is read as %r, MySQL reads %r' % (k, ', '.join(xs), got, want[0]),
                      '%s of %s -> %r' % (k, ', '.join(xs), want[0]))
    rep.need('operator applications', 300)
    # operators of the same kind may be flattened when that changes nothing, others not
    for t1, t2, par in itertools.product(['+', '-', '*', '/', '%', 'and', 'or', '||', '=', '<'],
                                         ['+', '-', '*', '/', '%', 'and', 'or', '||', '=', '<'], (0, 3)):
        for side in (0, 1):
            if t1 not in seen or t2 not in seen:
                continue
            st = g.st.copy()
            o = operands(g, st)
            in_ = seen[t2]
            inner = g.act(in_[7], g.tokens([plain(g, o['b'], st), token(g, in_[3], t2, in_[4], st),
                                            plain(g, o['c'], st)], None, st), st)
            if len(inner) != 1 or isinstance(inner[0][0], Exc):
                continue
            v, st = inner[0]
            out = seen[t1]
            pair = [plain(g, wrapped(g, v, st, par), st), plain(g, o['a'], st)]
            if side:
                pair.reverse()
            got = []
            for v, s in g.act(out[7], g.tokens([pair[0], token(g, out[3], t1, out[4], st), pair[1]], None, st), st):
                for w, s2 in ([(v, s)] if isinstance(v, Exc) else g.parse(v, s)):
                    got.append('error' if isinstance(w, Exc) else lower(w, s2))
            x = {BINARY[t2]: ['b', 'c']}
            want = [{BINARY[t1]: ['a', x] if side else [x, 'a']}]
            if BINARY[t1] == BINARY[t2] and BINARY[t1] in ('add', 'mul', 'and', 'or'):
                want.append({BINARY[t1]: ['a', 'b', 'c'] if side else ['b', 'c', 'a']})
            rep.count('nested operators')
            rep.check(len(got) == 1 and got[0] in want, 'operator %s in %s on the %s%s' % (t2, t1, 'right' if side else 'left', ', in parentheses' if par else ''),
                      'is read as %r, MySQL reads %r' % (got, want[0]))
    rep.need('nested operators', 100)


def wrapped(g, v, st, n=3):
    """a parenthesised operand as the library hands it on"""
    grp = g.I.call(g.I.mod_get(LIB, 'Group', st), [NONE], {}, st, None, None)[0][0]
    f = g.I.mod_get(LIB, 'ParseResults', st)
    for _ in range(n):
        v = g.I.call(f, [grp, K(0), K(0), st.list([plain(g, v, st)]), NONE], {}, st, None, None)[0][0]
    return v


def members(x):
    """the values of a list operand in either form"""
    if isinstance(x, dict) and set(x) == {'literal'} and isinstance(x['literal'], (list, tuple)):
        return [v if isinstance(v, (int, float)) else {'literal': v} for v in x['literal']]
    if isinstance(x, (list, tuple)):
        return list(x)
    return [x]


def check_lists(g, rep, tier):
    """(v1, ..., vn) is the list of these values"""
    par = [a for a in operand_texts(g) if a.kind == 'and' and len(a.args) == 3 and isinstance(a.args[1], Node)
           and a.args[1].action is not None]
    lists = [a.args[1] for a in par if any(x.kind == 'list' for x in a.args[1].walk())
             and spellings(a.args[0])[:1] and spellings(a.args[0])[0][0] == '(']
    if not lists:
        raise AnalysisError('no parenthesised list of operands in the grammar')
    spec = [(op, h) for op, ar, asc, h in g.infix[0].args[1] if not isinstance(op, tuple)
            and any(t == 'in' for t, _ in spellings(op))]
    vals = ['a', '1', '2', 's', 'null', '0', '0.0', 'false', "''"]
    todo = [c for n in (1, 2, 3) for c in itertools.product(vals, repeat=n) if n < 3 or len(set(c)) > 1]
    for node in lists[:1]:
        for xs in todo:
            st = g.st.copy()
            o = operands(g, st)
            got = []
            for v, s in g.act(node.action, g.tokens([plain(g, o[x], st) for x in xs], node, st), st):
                if isinstance(v, Exc):
                    got.append('error')
                    continue
                items = [v]
                if isinstance(v, Ref) and isinstance(s.heap[v.oid], HList):
                    items = list(s.heap[v.oid].items)
                elif isinstance(v, Tup):
                    items = list(v.items)
                elif v == NONE:
                    items = [o[x] for x in xs]
                if len(items) != 1:
                    got.append('%d tokens' % len(items))
                    continue
                w = wrapped(g, items[0], s, 1)
                for op, h in spec[:1]:
                    t, n = [(t, n) for t, n in spellings(op) if t == 'in'][0]
                    for r, s2 in g.act(h, g.tokens([plain(g, K('c'), s), token(g, n, t, op, s), plain(g, w, s)], None, s), s):
                        for z, s3 in ([(r, s2)] if isinstance(r, Exc) else g.parse(r, s2)):
                            got.append('error' if isinstance(z, Exc) else lower(z, s3))
            want = [JS[x] for x in xs]
            rep.count('lists')
            ok = len(got) == 1 and isinstance(got[0], dict) and list(got[0]) == ['in'] and len(got[0]['in']) == 2 \
                and got[0]['in'][0] == 'c' and same(members(got[0]['in'][1]), want)
            rep.check(ok, 'list (%s)' % ', '.join(xs), 'c in (%s) is read as %r' % (', '.join(xs), got))
    rep.need('lists', 50)


def check_rows(g, rep):
    """INSERT of several rows: each value under its own column, or refused"""
    ins = [n for n in g.root.walk() if n.kind == 'act' and isinstance(n.args[0], Node) and n.args[0].kind == 'and'
           and n.args[0].args and spellings(n.args[0].args[0])[:1] and spellings(n.args[0].args[0])[0][0] == 'insert']
    if not ins:
        raise AnalysisError('no INSERT with an action in the grammar')
    for cols in (['a', 'b'], ['b', 'a'], ['a', 'b', 'c'], ['a', 'a'], ['a', 'b', 'a'], None):
        for rows in ([[1, 2], [3, 4]], [[1, 2, 3], [4, 5, 6]], [['x', 'y'], ['z', 'w']], [['x', 1, 'y'], ['z', 2, 'w']],
                     [[1, 2], [3]], [[1, 2], [3, 4, 5]], [[1, 2, 3], [4, 5]], [[1, 2], [3, 4], [5, 6]]):
            st = g.st.copy()
            tok = lift({'columns': cols, 'table': 't', 'query': {'from': {'literal': rows}}}, st)
            tok = g.I.call(g.I.mod_get(LIB, 'Named', st), [tok], {}, st, None, None)[0][0]
            for v, s in g.act(ins[0].action, tok, st):
                for w, s2 in ([(v, s)] if isinstance(v, Exc) else g.parse(v, s)):
                    rep.count('rows')
                    if isinstance(w, Exc):
                        fine = cols is None or len(set(cols)) < len(cols) or any(len(r) != len(cols) for r in rows)
                        rep.check(fine and cols is not None, 'rows of %s for %s refused' % (rows, cols),
                                  'INSERT of the rows %s for the columns %s is refused' % (rows, cols))
                        continue
                    got = lower(w, s2)
                    have = got.get('values') if isinstance(got, dict) else None
                    if cols is None and len({len(r) for r in rows}) > 1:
                        continue
                    if cols is None:
                        rep.check(have == rows, 'rows of %s' % (rows,), 'INSERT of the rows %s is read as %r' % (rows, got))
                        continue
                    want = [list(zip(cols, r)) for r in rows]
                    ok = isinstance(have, list) and all(len(r) == len(cols) for r in rows) \
                        and [sorted(r.items()) for r in have] == [sorted(r) for r in want]
                    rep.check(ok, 'rows of %s for %s' % (rows, cols), 'INSERT of the rows %s for the columns %s is read '
                              'as %r' % (rows, cols, got))
    rep.need('rows', 40)


def same(x, y):
    return x == y and repr(x) == repr(y)


def plain(g, v, st):
    f = g.I.mod_get(LIB, 'Leaf', st)
    el = g.I.call(g.I.mod_get(LIB, 'El', st), [K('operand'), st.list([])], {}, st, None, None)[0][0]
    return g.I.call(f, [v, el], {}, st, None, None)[0][0]


CLAUSE_WORDS = ['all', 'and', 'as', 'asc', 'between', 'by', 'case', 'cross', 'desc', 'distinct', 'else', 'end', 'false',
                'from', 'group', 'having', 'in', 'inner', 'interval', 'is', 'join', 'left', 'like', 'limit', 'natural', 'not',
                'null', 'offset', 'on', 'or', 'order', 'right', 'rlike', 'select', 'then', 'true', 'union', 'using',
                'when', 'where', 'with']


def check_reserved(g, rep):
    """a word that introduces a clause is no name (and so no alias)"""
    nots = [n for n in g.root.walk() if n.kind == 'not']
    words = set()
    for n in nots:
        for a in alternatives(n.args[0]):
            words |= {t for t, _ in spellings(a) if ' ' not in t}
    for w in CLAUSE_WORDS:
        rep.count('reserved words')
        rep.check(w in words, 'reserved %s' % w, 'the word %s can be read as a name or alias: "t %s ..." loses its meaning'
                  % (w, w))


def check_S04(project, rep):
    g = Grammar(project)
    rep.check(g.whole == TRUE, 'whole text', 'parse_mysql does not ask for the whole text to be read')
    check_comments(g, rep, rep.tier)
    check_numbers(g, rep, rep.tier)
    check_strings(g, rep, rep.tier)
    check_names(g, rep, rep.tier)
    check_reserved(g, rep)
    check_operators(g, rep, rep.tier)
    check_lists(g, rep, rep.tier)
    check_rows(g, rep)
    rep.counts['grammar elements'] = len(g.cache)
    rep.counts['interpreted calls'] = g.calls
