"""ALTER TABLE end to end: the text of the client goes through the gateway's own reader (parse_alter_key), the rewriter and
the writer (format_alter_key), all propagated by the abstract interpreter over the text; what is executed is compared, token
by token, with what the client's text says."""
import re

from .execute import *
from .fmt import Fmt

TOKEN = re.compile(r'\s+|(`(?:[^`]|``)*`|[\w$]+|"[^"]*"|\'[^\']*\'|.)', re.S)


def tokens(text):
    """the tokens of a statement: names without their quotes, no closing semicolon"""
    out = []
    for m in TOKEN.finditer(text):
        t = m.group(1)
        if t is not None:
            out.append(t[1:-1].replace('``', '`') if t[0] == '`' and len(t) > 1 else t)
    while out and out[-1] == ';':
        out.pop()
    return out


N, C, W, T_, R = 'name', 'column', 'word', 'table', 'referenced'


def forms(table, cols, name):
    """(tag, [(kind, text)...]) of every ALTER TABLE of a key or an index; col is a column name"""
    t = [(W, 'alter'), (W, 'table'), (T_, table)]
    col = cols

    def listed(c):
        return [(W, '('), (C, c), (W, ')')]
    yield 'drop primary key', t + [(W, 'drop'), (W, 'primary'), (W, 'key')]
    yield 'add primary key', t + [(W, 'add'), (W, 'primary'), (W, 'key')] + listed(col)
    yield 'add foreign key', t + [(W, 'add'), (W, 'constraint'), (N, name), (W, 'foreign'), (W, 'key')] + listed(col) + \
        [(W, 'references'), (R, 's'), (W, '('), (C, 's.' + 'pv'), (W, ')')]
    yield 'drop foreign key', t + [(W, 'drop'), (W, 'foreign'), (W, 'key'), (N, name)]
    yield 'drop index', t + [(W, 'drop'), (W, 'index'), (N, name)]
    for k in ('index', 'unique', 'fulltext'):
        yield 'add ' + k, t + [(W, 'add'), (W, k), (N, name)] + listed(col)
        yield 'add %s without a name' % k, t + [(W, 'add'), (W, k)] + listed(col)


def spell(form, how):
    """the text of a form: 0 plain, 1 capitals and a semicolon, 2 much white space, 3 the table quoted, 4 no space at brackets"""
    ws = {2: ' \t\n  '}.get(how, ' ')
    out = []
    for kind, x in form:
        x = x.split('.')[-1] if kind == C else x
        if kind == W and how == 1:
            x = x.upper()
        if kind == T_ and how == 3:
            x = '`%s`' % x
        out.append(x)
    text = ws.join(out)
    if how == 4:
        text = text.replace(' ( ', '(').replace(' )', ')')
    return ('\n ' if how == 2 else '') + text + (';' if how in (1, 4) else ' ;\n' if how == 2 else '')


OTHERS = ('alter table t add column z int', 'alter table t drop column v', 'alter table t rename to u',
          'alter table t modify v varchar(3)', 'alter table t engine = innodb', 'alter table t drop primary key, drop index x',
          'alter table t add index x (v, i)', 'alter table t add index x (v) using btree', 'alter table t change v w int',
          'alter table t drop index x; drop table s', 'alter table t add index x (v(10))', 'alter table t convert to character set utf8',
          'alter table t drop index x -- y', 'alter table t add unique x (v), add index y (i)', 'alter table t truncate partition p',
          'alter table d.t drop index x', 'alter table t, s drop index x', 'alter table t add check (v > 1)', 'alter table t')
UNKNOWN = ('zz', 'T', 'PHYS_T', 'db1', 'tt', 'u')
NAMES = ('ix', 'a1', '_x', 'IX', 'index_of_v', 'x' * 60, 'add_', 'k9', '9k', 'PHYS_T', 't', 's', 'pi', 'v')
TAILS = (', drop index y', ', add index y (v)', ' , rename to u', ' -- y', '; drop table s', ' using btree', ' # y', ' /* y */', '\x00', ' y')


def check_M08(project, rep):
    fm = Fmt(project)
    if len(fm.starts) != 1:
        raise AnalysisError('%d ways to import sql_parsing' % len(fm.starts))

    def through(fn):
        def f(I, args, kw, st, node, fr):
            s = fm.starts[0].copy()
            g = fm.I.mod_get('sql_parsing', fn, s)
            if g is None:
                raise AnalysisError('sql_parsing.%s is gone' % fn)
            out = []
            for v, s2 in fm.I.call(g, [lift(lower(a, st), s) for a in args], {}, s, None, None):
                rep.count('paths')
                s3 = st.copy() if out else st
                out.append((Exc(EXCV, node) if isinstance(v, Exc) else lift(lower(v, s2), s3), s3))
            return out
        return f

    def refuse(I, args, kw, st, node, fr):
        return [(Exc(EXCV, node), st)]
    pl = Pipeline(project, intrinsics={'sql_parsing.parse_alter_key': through('parse_alter_key'),
                                       'sql_parsing.format_alter_key': through('format_alter_key')})
    for n in PARSE:
        pl.I.intr[n] = refuse                   # the SQL grammar has no ALTER TABLE

    def run(text):
        pl.qtype, pl.rows = 'ALTER', []
        for st in pl.states():
            before = memory(pl, st)
            f = pl.I.mod_get(CTX, 'invoke', st)
            for v, s in pl.I.call(f, [lift(dict(INFO, query=K(text)), st), K(text), NONE], {}, st, None, None):
                rep.count('requests')
                rep.check(memory(pl, s) == before and not store(s, 'execute', 'executemany', 'commit'),
                          '%s: metadata' % ' '.join(text.split()), 'the metadata is changed', 'metadata as before')
                yield v, s

    meta = pl.meta[DB]
    for name in NAMES:
        for col in ('pi', 'pv', 'i', 'v', 'iM') if name == 'ix' else ('pi',):
            for tag, form in forms('t', col, name):
                for how in range(5) if col == 'pi' else (0,):
                    text = spell(form, how)
                    for v, s in run(text):
                        judge(rep, tag, form, text, v, s, meta)
    more = tuple(spell(form, 0) + tail for tag, form in forms('t', 'pi', 'ix') for tail in TAILS)
    for text in OTHERS + tuple(o.upper() for o in OTHERS[:5]) + more:
        for v, s in run(text):
            rep.count('other_statements')
            rep.check(isinstance(v, Exc) and not executes(s), text, 'is answered %r, executed: %r' % (v, executes(s)[:1]),
                      '%s: refused' % text)
    for table in UNKNOWN:
        for tag, form in forms(table, 'pi', 'ix'):
            for v, s in run(spell(form, 0)):
                rep.count('unknown_tables')
                rep.check(isinstance(v, Exc) and not executes(s), '%s of unknown table %s' % (tag, table),
                          'is answered %r, executed: %r' % (v, executes(s)[:1]), '%s of %s: refused' % (tag, table))
    rep.need('requests', 300)
    rep.need('executed', 100)
    rep.need('other_statements', 80)
    rep.need('unknown_tables', 40)


def judge(rep, tag, form, text, v, s, meta):
    key = '%s (%s)' % (tag, ' '.join(text.split()))
    ex = executes(s)
    if isinstance(v, Exc):
        rep.count('refused')
        rep.check(not ex, key + ': refused', 'is refused after executing %r' % (ex[:1],), '%s: refused, nothing executed' % key)
        return
    rep.check(len(ex) == 1, key + ': executed', '%d statements are executed for it, it is answered as done' % len(ex))
    if len(ex) != 1:
        return
    rep.count('executed')
    a = ex[0].args[0] if ex[0].args else None
    if not (isinstance(a, K) and isinstance(a.v, str)):
        rep.bad(key + ': text', 'what is executed is %r: no text' % (a,))
        return
    got = tokens(a.v)
    ok = len(got) == len(form)
    for (kind, x), g in zip(form, got):
        if kind == W:
            ok = ok and g.lower() == x
        elif kind == N:
            ok = ok and g == x
        elif kind == C:
            t, c = x.split('.') if '.' in x else ('t', x)
            d = meta[t]['columns'][c]
            ok = ok and g in [c] + list(d['enc-cols'].values())
        else:
            ok = ok and g == meta[x]['anonymous']
    rep.check(ok, key + ': executed', 'what is executed is %r' % a.v, '%s: %s' % (key, a.v))
