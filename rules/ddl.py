"""M07: what CREATE TABLE says about keys, constraints, defaults and the table reaches the backend, or the statement is
refused.  The DDL text of every path is read back into (type, attributes) per physical column, constraints and options."""
import itertools
import re

from .meta import *

ATTRS = (('not null', r'not\s+null\b'), ('auto_increment', r'auto_increment\b'), ('unique', r'unique(?:\s+key)?\b'),
         ('primary key', r'primary\s+key\b'), ('null', r'null\b'), ('collate', r'collate\s*=?\s*(\S+)'),
         ('comment', r"comment\s*=?\s*'(?:[^']|'')*'"), ('default', r'default\s+'), ('check', r'check\s*(?=\()'),
         ('identity', r'(?:generated\b.*?as\s+)?identity\b'), ('unsigned', r'unsigned\b'), ('references', r'references\b.*$'))


def balanced(s):
    d = 0
    for i, ch in enumerate(s):
        d += (ch == '(') - (ch == ')')
        if d == 0:
            return i + 1
    return len(s)


def column_def(d):
    """'name type(args) attributes' -> (name, type, args, {attribute: value}) or None when it cannot be read"""
    m = re.match(r'\s*(\S+)\s+(\w+(?:\s+precision\b)?)\s*(?:\(([^)]*)\))?', d, re.I)
    if not m:
        return None
    rest, attrs = d[m.end():].strip(), {}
    while rest:
        for name, rx in ATTRS:
            a = re.match(rx, rest, re.I | re.S)
            if a:
                break
        else:
            return None
        rest = rest[a.end():]
        val = a.group(1) if a.groups() else True
        if name in ('default', 'check'):
            q = re.match(r"\(|'(?:[^']|'')*'|[^\s(]+", rest)
            if not q:
                return None
            end = q.end()
            if q.group() == '(':
                end = balanced(rest)
            elif rest[end:end + 1] == '(':
                end += balanced(rest[end:])
            val, rest = rest[:end], rest[end:]
        if name in attrs:
            return None
        attrs[name] = val
        rest = rest.strip()
    return m.group(1), m.group(2).lower(), (m.group(3) or '').replace(' ', ''), attrs


def options_of(text):
    """text after the column list -> {option: value}"""
    res, text = {}, text.strip().rstrip(';').strip()
    while text:
        m = re.match(r'(engine|auto_increment|(?:default\s+)?character\s+set|(?:default\s+)?charset|(?:default\s+)?collate)'
                     r'(?:\s*=\s*|\s+)(\S+?)(?:\s+|,\s*|$)', text, re.I)
        if not m:
            return None
        k = re.sub(r'default\s+', '', m.group(1).lower())
        k = 'charset' if k != 'collate' and k.startswith('cha') else k
        if k in res:
            return None
        res[k] = m.group(2)
        text = text[m.end():]
    return res


DEFAULTS = [0, 5, -1, 1.5, True, False, {'literal': 'x'}, {'literal': ''}, {'literal': "o'k"}, {'null': {}},
            'current_timestamp', {'now': {}}, {'add': [1, 2]}]
TYPES = [('int', {'int': {}}), ('int', {'int': 11}), ('varchar', {'varchar': 20}), ('bigint', {'unsigned': True, 'bigint': 20}),
         ('int', {'unsigned': True, 'int': {}}), ('decimal', {'decimal': [10, 2]}), ('decimal', {'decimal': [10]}),
         ('json', 'json'), ('text', {'text': {}}), ('double', {'double': {}}), ('date', {'date': {}})] + [
    (t, {t: n}) for t, ns in (('varchar', (1, 2, 10, 64, 100, 127, 128, 255, 256, 1000, 65535)), ('char', (1, 255)), ('int', (1, 10)),
                              ('datetime', (6,)), ('binary', (16,))) for n in ns] + [
    ('decimal', {'decimal': [65, 30]}), ('decimal', {'decimal': [5, 0]}), ('float', {'float': [7, 4]})]


def enc_of(name):
    return {name: {'fuzzy': True, 'arithmetic': True, 'homomorphic_key': [Sym('hk0', 'int'), Sym('hk1', 'int')],
                   'key': Sym('key:' + name, 'str')}}


def tables_of():
    """(tag, parser tree without the table name, encrypted columns)"""
    p = {'name': 'p', 'type': {'int': {}}}
    a = {'name': 'a', 'type': {'varchar': 9}}

    def opt(**kw):
        return {k: v for k, v in kw.items() if v is not None}
    for _, t in TYPES:
        yield 'type %s' % (t,), {'columns': dict(p, type=t)}, {}
        yield 'type %s not null' % (t,), {'columns': dict(p, type=t, nullable=False)}, {}
    for d in DEFAULTS:
        for extra in ({}, {'nullable': False}, {'nullable': True}, {'unique': True}, {'collate': 'utf8_bin'}):
            yield 'default %s %s' % (d, sorted(extra)), {'columns': [dict(p, default=d, **extra)]}, {}
    for n, u, k, ai in itertools.product((None, True, False), (None, True), (None, True), (None, True)):
        o = opt(nullable=n, unique=u, primary_key=k, auto_increment=ai)
        tag = ' '.join('%s=%s' % x for x in sorted(o.items()))
        yield 'plain ' + tag, {'columns': [dict(p, **o), a]}, {}
        yield 'plain beside encrypted ' + tag, {'columns': [dict(p, **o), a]}, enc_of('a')
        com = {'literal': 'the comment'}
        yield 'plain comment ' + tag, {'columns': [dict(p, comment=com, **o), a], 'comment': com}, {}
        yield 'plain default comment ' + tag, {'columns': [a, dict(p, comment=com, default=3, **o)]}, {}
        yield 'encrypted comment ' + tag, {'columns': [p, dict(a, comment=com, **o)], 'comment': com}, enc_of('a')
        yield 'last of four ' + tag, {'columns': [dict(p, name='p%d' % i) for i in range(3)] + [dict(p, **o)]}, {}
        yield 'encrypted last of four ' + tag, {'columns': [dict(p, name='p%d' % i) for i in range(3)] + [dict(a, **o)]}, enc_of('a')
        for t in ({'varchar': 9}, {'int': {}}, {'double': {}}):
            yield 'encrypted %s %s' % (t, tag), {'columns': [p, dict(a, type=t, **o)]}, enc_of('a')
            yield 'encrypted %s default null %s' % (t, tag), {'columns': [dict(a, type=t, default={'null': {}}, **o)]}, enc_of('a')
    for c, e in ((p, {}), (a, enc_of('a'))):
        yield 'check', {'columns': [dict(c, check={'gt': [c['name'], 3]})]}, e
        yield 'identity', {'columns': [dict(c, identity={'generated': 'by_default'})]}, e
    opts = {'engine': 'InnoDB', 'auto_increment': 5, 'collate': 'utf8_bin', 'default_charset': 'utf8'}
    for r in range(1, 5):
        for ks in itertools.combinations(sorted(opts), r):
            yield 'options %s' % (ks,), dict({k: opts[k] for k in ks}, columns=[p, a]), enc_of('a')
    yield 'options character set', {'default_character_set': 'utf8', 'columns': [p, a]}, {}
    yield 'options auto_increment=0', {'auto_increment': 0, 'columns': [p, a]}, {}
    yield 'temporary', {'temporary': True, 'columns': [p, a]}, enc_of('a')
    yield 'query', {'columns': [p, a], 'query': {'select': '*', 'from': 't'}}, enc_of('a')
    yield 'query', {'columns': [p], 'query': {'select': {'value': 1}}}, {}
    cols = [p, a, {'name': 'b', 'type': {'int': {}}}]
    two = dict(enc_of('a'), **enc_of('b'))
    cons = [{'primary_key': {'columns': c}} for c in ('p', 'a', ['p', 'b'], ['a', 'b', 'p'])]
    cons += [dict(c, name='pk') for c in cons]
    for od in (None, 'cascade', 'set_null', 'set_default'):
        for name, idx in ((None, None), ('fk', None), (None, 'ix'), ('fk', 'ix')):
            for ci, cr in (('a', 'v'), ('p', 'pv'), (['a', 'p'], ['v', 'pv']), (['p', 'b'], ['pv', 'i'])):
                f = opt(columns=ci, references={'table': 's', 'columns': cr}, on_delete=od, index_name=idx)
                cons.append(opt(foreign_key=f, name=name))
    for c in cons:
        for e in ({}, two):
            yield 'constraint %s' % c, {'columns': cols, 'constraint': c}, e
    yield 'constraints', {'columns': cols, 'constraint': [cons[1], cons[-1], cons[-2]]}, two
    for c in ({'index': {'unique': True, 'columns': 'a'}}, {'index': {'name': 'k', 'columns': 'a'}},
              {'check': {'gt': ['p', 3]}}):
        yield 'constraint %s' % sorted(c), {'columns': cols, 'constraint': c}, enc_of('a')
        yield 'constraint %s' % sorted(c), {'columns': cols, 'constraint': [cons[0], c]}, enc_of('a')


DDL2 = re.compile(r'^\s*create\s+(temporary\s+)?table\s+(?:if\s+not\s+exists\s+)?(\S+?)\s*\(', re.I)


def check_M07(project, rep):
    pl = Pipeline(project)
    pl.I.intr['sql_parsing.formatting.Formatter'] = lambda I, a, k, st, n, fr: [(st.alloc(HInst(
        Ext('formatter'), {'dispatch': Ext('formatter.dispatch'), 'format': Ext('formatter.dispatch')})), st)]
    pl.I.intr['formatter.dispatch'] = pl._format
    done, kept = set(), set()
    for tag, body, enc in tables_of():
        rep.count('create_shapes')
        js = {'create table': dict(body, name='n')}
        pl.captured = []
        for v, s in pl.invoke(js, 'CREATE', encrypted_cols=enc):
            rep.count('paths')
            group = tag.split(' ')[0]
            done.add(group)
            if isinstance(v, Exc):
                rep.check(not executes(s), tag + ': refused', 'executed although refused')
                continue
            ex = executes(s)
            if not rep.check(len(ex) == 1, tag, '%d statements are sent' % len(ex)):
                continue
            tx = Text()
            text = tx(ex[0].args[0])
            m = DDL2.match(text)
            if not rep.check(m is not None, tag, 'not a CREATE TABLE: %s' % text[:200]):
                continue
            end = m.end() - 1 + balanced(text[m.end() - 1:])
            kept.add(group)
            whole(rep, pl, tag, body, enc, memory(pl, s)[DB].get('n'), tx, bool(m.group(1)),
                  split_top(text[m.end():end - 1]), text[end:])
    for g in ('type', 'default', 'plain', 'encrypted', 'options', 'constraint'):
        rep.check(g in kept, g + ': refused', 'no CREATE TABLE of this group is accepted', '%s: accepted' % g)
    rep.need('create_shapes', 200)
    rep.need('columns', 300)


def whole(rep, pl, tag, body, enc, info, tx, temporary, defs, tail):
    rep.check(temporary == bool(body.get('temporary')), tag, 'temporary table created permanent')
    rep.check('query' not in body or re.match(r'\s*(as\s+)?\S*select|\s*(as\s+)?\u00ab', tail, re.I), tag,
              'the query of CREATE TABLE ... AS is dropped')
    if not rep.check(isinstance(info, dict), tag, 'no metadata for the table'):
        return
    cons = [d for d in defs if re.match(r'(constraint|primary\s+key|foreign\s+key|unique|index|key|check)\b', d, re.I)]
    by = {}
    for d in defs:
        if d not in cons:
            c = column_def(d)
            if not rep.check(c is not None, tag + ': column', 'the column definition "%s" is not one MySQL reads' % d):
                return
            by[c[0]] = c
    cl = body['columns'] if isinstance(body['columns'], list) else [body['columns']]
    for c in cl:
        ci = info['columns'].get(c['name'])
        if ci is None:
            continue
        t = c['type'] if isinstance(c['type'], dict) else {c['type']: {}}
        typ = [k for k in t if k != 'unsigned'][0]
        want = {k: True for k, f in (('unique', 'unique'), ('primary key', 'primary_key'), ('auto_increment', 'auto_increment'))
                if c.get(f)}
        if c['name'] not in enc:
            got = by.get(c['name'])
            if not rep.check(got is not None, tag + ': column', 'column %s is not created' % c['name']):
                continue
            rep.count('columns')
            size = t[typ]
            size = ','.join(map(str, size)) if isinstance(size, list) else str(size) if size else ''
            rep.check((got[1], got[2]) == (typ, size), tag + ': type', '%s is created as %s(%s)' % (c['type'], got[1], got[2]),
                      '%s: type' % tag)
            rep.check(ci['type'] == typ, tag + ': type', '%s is recorded as %s' % (c['type'], ci['type']))
            if t.get('unsigned'):
                want['unsigned'] = True
            attributes(rep, pl, tag, c, want, got[3], tx, plain=True)
        else:
            uni = pk = ai = 0
            for label, ph in ci['enc-cols'].items():
                got = by.get(tx(ph))
                if not rep.check(got is not None, tag + ': column', 'the %s column is not created' % label):
                    continue
                rep.count('columns')
                a = dict(got[3])
                if label == 'symmetric':
                    attributes(rep, pl, tag, c, want, a, tx, plain=False)
                else:
                    # uniqueness of an injective ciphertext is the uniqueness of the value
                    if label != 'order-preserving':
                        rep.check('unique' not in a and 'primary key' not in a, tag + ': %s' % label,
                                  'the %s column, whose ciphertexts are not unique to a value, is a key' % label)
                    attributes(rep, pl, tag, c, {}, {k: x for k, x in a.items() if k not in ('unique', 'primary key')}, tx,
                               plain=False)
    constraints(rep, tag, body, info, cons, tx)
    o = options_of(tail) if 'query' not in body else {}
    want = {k: str(body[f]) for k, f in (('engine', 'engine'), ('auto_increment', 'auto_increment'), ('collate', 'collate'),
                                         ('charset', 'default_charset'), ('charset', 'default_character_set')) if f in body}
    rep.check(o == want, tag + ': options', 'table options %s become "%s"' % (want, tail.strip()), '%s: options' % tag)


def attributes(rep, pl, tag, c, want, got, tx, plain):
    got = dict(got)
    got.pop('comment', None)
    null = {True: 'null', False: 'not null', None: None}[c.get('nullable')]
    for k in ('null', 'not null'):
        n = got.pop(k, None)
        rep.check(bool(n) == (null == k) or k == 'null' and null is None, tag + ': null', 'nullable=%s is created %s' % (
            c.get('nullable'), 'with ' + k if n else 'without ' + k), '%s: null' % tag)
    col = got.pop('collate', None)
    if plain:
        rep.check(col == c.get('collate'), tag + ': collate', 'COLLATE %s is created as %s' % (c.get('collate'), col))
    d = got.pop('default', None)
    if 'default' in c:
        rep.check(d is not None and same_default(pl, c['default'], d, tx), tag + ': default', 'DEFAULT %s is created as %s' % (
            c['default'], d), '%s: default' % tag)
    else:
        rep.check(d is None, tag + ': default', 'DEFAULT %s appears' % d)
    chk = got.pop('check', None)
    rep.check((chk is not None) == ('check' in c), tag + ': check', 'the CHECK of column %s is dropped' % c['name'])
    rep.check(('identity' in got) == ('identity' in c), tag + ': identity', 'the IDENTITY of column %s is dropped' % c['name'])
    got.pop('identity', None)
    got.pop('references', None)
    rep.check(got == want, tag + ': attributes', 'column %s is created with %s, asked for %s' % (
        c['name'], sorted(got), sorted(want)), '%s: attributes' % tag)


def same_default(pl, want, text, tx):
    inner = text
    expr = isinstance(want, dict) and not set(want) & {'literal', 'null', 'now', 'current_timestamp'}
    if text.startswith('('):
        inner = text[1:-1].strip()
    elif expr:
        return False             # MySQL takes expressions in parentheses only
    for term, i in tx.tokens.items():
        if inner == '\u00ab%d\u00bb' % i:
            n = term.args[0].v if isinstance(term, T) and term.op == 'sql' else None
            return n is not None and n < len(pl.captured) and same(pl.captured[n], want)
    if isinstance(want, bool):
        return inner.lower() in (str(want).lower(), str(int(want)))
    if isinstance(want, (int, float)):
        return inner == str(want)
    if isinstance(want, str):
        return inner.lower() in (want, want + '()')
    k = list(want)[0]
    if k == 'literal':
        return inner == "'" + want[k].replace("'", "''") + "'"
    return inner.lower().replace('()', '') == k


def same(a, b):
    return type(a) == type(b) and a == b


def constraints(rep, tag, body, info, cons, tx):
    ks = body.get('constraint') or []
    ks = ks if isinstance(ks, list) else [ks]
    if not rep.check(len(cons) == len(ks), tag + ': constraints', '%d constraints become %s' % (len(ks), cons)):
        return

    def ph(cols, table):
        cols = cols if isinstance(cols, list) else [cols]
        return [tx(phys_of(table['columns'][x])) or x for x in cols]
    for want, got in zip(ks, cons):
        rep.count('constraints')
        kind = [k for k in want if k != 'name'][0]
        d = want[kind]
        m = re.match(r'(?:constraint\s+(?P<name>\S+)\s+)?(?P<kind>primary\s+key|foreign\s+key|unique(?:\s+(?:key|index))?|index|key|'
                     r'check)\s*(?P<ix>[^\s(]+)?\s*\((?P<cols>[^)]*)\)\s*(?:references\s+(?P<rt>[^\s(]+)\s*\((?P<rc>[^)]*)\))?\s*'
                     r'(?:on\s+delete\s+(?P<od>[\w ]+))?\s*$', got, re.I)
        if not rep.check(m is not None, tag, 'the constraint "%s" is not one MySQL reads' % got):
            continue
        g = m.groupdict()
        unique = kind == 'index' and d.get('unique')
        words = {'primary_key': ('primary key',), 'foreign_key': ('foreign key',), 'check': ('check',),
                 'index': ('unique', 'unique key', 'unique index') if unique else ('index', 'key')}[kind]
        ok = ' '.join(g['kind'].lower().split()) in words and g['name'] == want.get('name')
        if kind == 'check':
            rep.check(ok, tag, 'constraint %s becomes %s' % (want, got))
            continue
        ok = ok and [x.strip() for x in g['cols'].split(',')] == ph(d['columns'], info)
        if kind == 'foreign_key':
            m2 = schema()[DB][d['references']['table']]
            ok = ok and g['rt'] == m2['anonymous'] and [x.strip() for x in g['rc'].split(',')] == ph(
                d['references']['columns'], m2)
            od = ' '.join(g['od'].lower().split()) if g['od'] else None
            ok = ok and od == (d['on_delete'].replace('_', ' ') if d.get('on_delete') else None)
        rep.check(ok, tag, 'constraint %s becomes %s' % (want, got), '%s' % got)
