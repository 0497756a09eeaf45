"""Bulk load: the rows of a file reach the backend encrypted like those of an INSERT."""
import ast
import re
from .pipeline import *
from sa.values import HInst

DTYPES = (Ext('builtins.str'), K('str'), Ext('builtins.object'), K(str), K('object'), K('string'))


def is_str(v):
    return v is not None and (v in DTYPES or 'str' in repr(v) or 'object' in repr(v))


def fallible(name, I, args, st, node, fr, result):
    e = Event('call', name, NONE, tuple(I.freeze(a, st) for a in args), {}, node, st.locks, NONE, fr and fr.fn)
    out = []
    x = I.may_raise(I, e, st) if I.may_raise is not None else None
    if x is not None:
        s2 = st.copy()
        I.event(s2, Event('raised', name, NONE, (), {}, node, st.locks, x, fr and fr.fn))
        out.append((Exc(x, node), s2))
    I.event(st, e)
    return out + [(result, st)]


class Reader:
    """pandas.read_csv, numpy.transpose and numpy.asarray over symbolic cells: without dtype=str, pandas takes a column that looks
    like numbers for one; unless told otherwise it takes empty cells, NA, null... for missing values"""
    MISSING = ('', 'NA', 'null', 'nan', 'None', 'n/a')

    def __init__(self):
        self.chunks = []

    def read_csv(self, I, args, kw, st, node, fr):
        kw = {k: I.freeze(v, st) for k, v in kw.items()}
        text = is_str(kw.get('dtype'))
        unset = lambda v: v is None or v == NONE
        keep = kw.get('keep_default_na') == K(False)
        nofilter = kw.get('na_filter') == K(False)
        named = kw.get('na_values')
        names = () if unset(named) else [x.v for x in (named.items if isinstance(named, Tup) else [named])]
        header = 'header' in kw and kw['header'] == NONE or 'names' in kw

        def cell(x):
            v = x.v if isinstance(x, K) else None
            if not nofilter and v is not None and (v in names or not keep and v in self.MISSING):
                return K(float('nan'))
            return x if text else T('inferred', (x,))
        res = []
        chunks = self.chunks if header else [self.chunks[0][1:]] + self.chunks[1:]
        if unset(kw.get('chunksize')) and unset(kw.get('iterator')):
            chunks = [[r for c in chunks for r in c]]
        for c in chunks:
            m = lift([[cell(x) for x in r] for r in c], st)
            res.append(st.alloc(HInst(Ext('DataFrame'), {'values': m})))
        return fallible('read_csv', I, args, st, node, fr, res[0] if unset(kw.get('chunksize')) and unset(kw.get('iterator'))
                        else lift(res, st))

    def transpose(self, I, args, kw, st, node, fr):
        m = lower(args[0], st)
        if not isinstance(m, (list, tuple)) or not all(isinstance(r, (list, tuple)) for r in m):
            raise AnalysisError('numpy.transpose of %r' % (m,))
        return fallible('transpose', I, args, st, node, fr, lift([list(r) for r in zip(*m)], st))

    def same(self, I, args, kw, st, node, fr):
        m = lower(args[0], st)
        return fallible('asarray', I, args, st, node, fr, lift(
            [list(r) if isinstance(r, (list, tuple)) else r for r in m] if isinstance(m, (list, tuple)) else m, st))

    def intrinsics(self):
        return {'pandas.read_csv': self.read_csv, 'numpy.transpose': self.transpose, 'numpy.asarray': self.same, 'numpy.array': self.same,
                '.tolist': self.tolist}

    def tolist(self, I, args, kw, st, node, fr):
        return self.same(I, args[:1], kw, st, node, fr)


def load(pl, rd, chunks, columns, table='t', db=DB):
    rd.chunks = chunks
    info = dict(INFO, db=db, batch_process={'table': table, 'columns': list(columns), 'input': Sym('file', 'str')})
    out = []
    for st in pl.states():
        f = pl.I.mod_get(CTX, 'batch_process', st)
        out += pl.I.call(f, [lift(info, st)], {}, st, None, None)
    return out


def writes(s):
    """(text, values) of every INSERT executed, and whether all are committed"""
    rows, pending = [], False
    for e in s.trace:
        if e.kind != 'call':
            continue
        if e.name in ('execute', 'executemany') and e.args:
            if 'insert' not in str(const(e.args[0])).lower():
                continue
            pending = True
            vals = lower(e.args[1], s) if len(e.args) > 1 else None
            if e.name == 'executemany':
                rows += [(const(e.args[0]), v) for v in vals]
            else:
                rows.append((const(e.args[0]), vals))
        elif e.name == 'commit':
            pending = False
    return rows, not pending


def const(v):
    return v.v if isinstance(v, K) else v


def columns_of(text):
    m = isinstance(text, str) and re.fullmatch(r'\s*insert\s+into\s+`?([\w]+)`?\s*\(([^()]*)\)\s*values\s*\(([^()]*)\)\s*;?\s*', text, re.I)
    if not m:
        return None, None
    names = [x.strip().strip('`') for x in m.group(2).split(',')]
    marks = [x.strip() for x in m.group(3).split(',')]
    return m.group(1), names if marks == ['%s'] * len(names) else None


def expected(gw, term, t, c, label, cell, meta):
    """is `term` what an INSERT of the text `cell` sends for this physical column? -> None or what is wrong"""
    if isinstance(cell, Sym):
        typ = meta[DB][t]['columns'][c]['type']
        if isinstance(term, T) and term.op == 'enc' and 'inferred' in repr(term):
            return 'encrypts what pandas takes the text for'
        if typ in ('int', 'float', 'double'):
            return enc_num(gw, term, t, c, label, cell, meta)
        return enc_ok(gw, term, t, c, label, cell, meta)
    return None


def enc_num(gw, term, t, c, label, cell, meta):
    cls, key, arg = term.args if isinstance(term, T) and term.op == 'enc' else (None, None, None)
    if cls is None:
        return 'is not ciphertext (%r)' % (term,)
    bad = enc_ok(gw, T('enc', (cls, key, K('?'))), t, c, label, cell, meta)
    if bad and not bad.startswith('encrypts'):
        return bad
    typ = meta[DB][t]['columns'][c]['type']
    ok = {unconverted(x) for k in ('int', 'float') for x in encoded(gw, Sym(cell.name, k), typ)}
    return None if unconverted(strip(arg)) in ok else 'encrypts %r, not the stored encoding of the value' % (arg,)


TEXTS = {'varchar': ['007', 'NA', 'abc', ' x ', '1e5', 'null', '5.0', 'TRUE', '-0'], 'char': ['007', 'nan', '1.50'],
         'int': ['5', '-7', '0', '2147483647'], 'float': ['2.5', '3', '-0.25'], 'double': ['2.5', '40', '-0.25']}


def check_C18(project, rep):
    meta = schema()
    rd = Reader()
    pl = Pipeline(project, meta, intrinsics=rd.intrinsics())
    gw = Gateway(project, meta)
    phys = physical(meta)
    cols = meta[DB]['t']['columns']

    def judge(tag, chunks, columns, want_rows):
        outs = load(pl, rd, chunks, columns)
        done = 0
        full = set()
        for v, s in outs:
            rep.count('loads')
            if isinstance(v, Exc):
                continue
            done += 1
            rows, committed = writes(s)
            rep.check(committed, tag + ': commit', 'rows are written after the last commit, or never committed')
            if not rep.check(len(rows) == len(want_rows), tag + ': rows', 'a file of %d rows is loaded as %d' % (
                    len(want_rows), len(rows)), '%s: %d rows' % (tag, len(rows))):
                continue
            for (text, vals), cellrow in zip(rows, want_rows):
                table, names = columns_of(text)
                if not rep.check(table == 'PHYS_T' and names and isinstance(vals, (list, tuple)) and len(vals) == len(names),
                                 tag + ': statement', 'the row is written by %r with %r' % (text, vals)):
                    continue
                need = []
                for c, cell in zip(columns, cellrow):
                    ci = cols[c]
                    need += [(c, c, None, cell)] if ci['plaintext'] else [(ph, c, label, cell) for label, ph in ci['enc-cols'].items()]
                rep.check(sorted(names) == sorted(n[0] for n in need), tag + ': columns', 'the columns %s are written, of %s' % (
                    names, [n[0] for n in need]))
                got = dict(zip(names, vals))
                for ph, c, label, cell in need:
                    if ph not in got:
                        continue
                    rep.count('cells')
                    g = got[ph]
                    g = g if isinstance(g, V) else K(g)
                    what = '%s: %s %s' % (tag, cols[c]['type'], label or 'plain')
                    if isinstance(cell, Sym) and g == NONE and empty(cell, s):
                        continue
                    full.add((c, label))
                    if cell == K(''):
                        rep.check(g == NONE, what + ', empty', 'an empty cell, a NULL, is loaded as %r' % (g,))
                    elif label is None:
                        ok = strip(unc(g)) == unc(cell) or isinstance(cell, K) and number(g) is not None and number(g) == number(cell)
                        rep.check(ok, what, '%r is loaded as %r' % (cell, g))
                    elif isinstance(cell, K):
                        bad = constant(gw, pl, g, c, label, cell, meta)
                        rep.check(bad is None, what, '%r: %s' % (cell.v, bad), '%s: %r' % (what, cell.v))
                    else:
                        bad = expected(gw, g, 't', c, label, cell, meta)
                        rep.check(bad is None, what, '%r %s' % (cell, bad), '%s: %r -> %r' % (what, cell, g))
        rep.check(not done or {c for c, _ in full} == set(columns), tag + ': values', 'every value of %s is loaded as NULL' % (
            set(columns) - {c for c, _ in full},))
        rep.check(done > 0, tag, 'the file is refused: %r' % ([str(v)[:150] for v, s in outs][:2],))

    def cell(r, c):
        return Sym('r%d:%s' % (r, c), 'str')
    names = list(cols)
    lists = [[c] for c in names] + [['pv', 'v'], ['v', 'pv'], ['i', 'pi', 'f'], ['pi', 'v', 'pv', 'd'], names, names[::-1]]
    for columns in lists:
        for sizes in ((1,), (2, 1)) if len(columns) == 1 or rep.tier == 'thorough' and len(columns) < 4 else ((1,),):
            n, chunks, flat = 0, [], []
            for k in sizes:
                chunks.append([[cell(n + i, c) for c in columns] for i in range(k)])
                flat += chunks[-1]
                n += k
            judge('%d columns, %d chunks' % (len(columns), len(sizes)), chunks, columns, flat)
    for c in names:
        for text in TEXTS[cols[c]['type']]:
            for other in ('pv', 'v'):
                if other != c:
                    row = [[K(text), cell(0, other)]]
                    judge('text %r' % text, [row], [c, other], row)
        row = [[cell(0, 'pv' if c != 'pv' else 'v'), K('')], [cell(1, 'pv' if c != 'pv' else 'v'), cell(1, c)]]
        judge('empty cell', [row], ['pv' if c != 'pv' else 'v', c], row)
    # as many rows as the numbers the code counts with
    for n in sizes_named(project):
        rep.count('long_chunks')
        flat = [[K('r%d' % i)] for i in range(n)]
        judge('%d rows' % n, [flat], ['pv'], flat)
        if n > 2:
            judge('%d rows in two chunks' % n, [flat[:n - n // 3], flat[n - n // 3:]], ['pv'], flat)
    # what cannot be loaded is refused, and nothing is written
    for tag, columns, table in (('unknown table', ['v'], 'nowhere'), ('unknown column', ['v', 'nothing'], 't')):
        for v, s in load(pl, rd, [[[cell(0, c) for c in columns]]], columns, table):
            rep.count('refusals')
            rep.check(isinstance(v, Exc) and not writes(s)[0], tag, 'a load into an %s is answered with %r' % (tag, v))
    rep.need('cells', 200)
    rep.need('refusals', 2)


def sizes_named(project):
    """row counts around the integer constants of the executors' module: a batch may end there"""
    found = set()
    for n in ast.walk(project.mod('scheduler.backend.executors.remote_executor').tree):
        if isinstance(n, ast.Constant) and type(n.value) is int and 2 < n.value <= 2500:
            found.add(n.value)
    return sorted({m for n in sorted(found)[:6] for m in (n - 1, n, n + 1)} | {2, 3})


def empty(cell, s):
    """is the cell the empty text on this path?"""
    return any(b and isinstance(f, tuple) and f[0] == 'eq' and set(f[1]) == {cell, K('')} for f, b in s.facts.items()) or \
        any(not b and f == cell for f, b in s.facts.items())


def unc(v):
    return unconverted(v)


def number(v):
    v = v.v if isinstance(v, K) else v
    try:
        return float(v)
    except (TypeError, ValueError):
        return None


def constant(gw, pl, g, c, label, cell, meta):
    """like the constant of an INSERT"""
    if not (isinstance(g, T) and g.op == 'enc'):
        return 'is not ciphertext (%r)' % (g,)
    typ = meta[DB]['t']['columns'][c]['type']
    cls, key, arg = g.args
    if cls.v != LABELS[label][0] or syms_in(key) != set(keyset('t', c, label)):
        return 'is encrypted by %s keyed %s' % (cls.v, sorted(syms_in(key)))
    if typ in ('int', 'float', 'double'):
        x = int(cell.v) if cell.v.lstrip('-').isdigit() else float(cell.v)
        want = {strip(y) for y in encoded(gw, K(x), typ)}
        a = strip(arg)
        return None if any(number(a) == number(w) for w in want) else 'is encrypted as %r instead of %r' % (a, sorted(map(repr, want)))
    return None if strip(arg) == cell else 'is encrypted as %r' % (arg,)
