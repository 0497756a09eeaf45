"""CREATE TABLE, DROP TABLE and the metadata they keep, in memory and in the metadata store."""
import itertools
import os
import re
import sqlite3

from .execute import *

STRINGS = ('varchar', 'char')
LENGTHS = (1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 100, 127, 128, 200, 250, 254, 255, 256, 500, 1000, 4000)


class Text:
    """renders string terms as text, every unknown part as a distinct token"""

    def __init__(self):
        self.tokens = {}

    def parts(self, v):
        if isinstance(v, T) and v.op == 'cat':
            for a in v.args:
                yield from self.parts(a)
        elif isinstance(v, T) and v.op == 'str' and len(v.args) == 1:
            yield from self.parts(v.args[0])
        else:
            yield v

    def __call__(self, v):
        out = []
        for p in self.parts(v if isinstance(v, V) else K(v)):
            if isinstance(p, K):
                out.append(str(p.v))
            else:
                out.append('\u00ab%d\u00bb' % self.tokens.setdefault(p, len(self.tokens)))
        return ''.join(out)


def split_top(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '(':
            depth += 1
        elif ch == ')':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return [x.strip() for x in out + [cur] if x.strip()]


DDL = re.compile(r'^\s*create\s+table\s+(?:if\s+not\s+exists\s+)?(\S+?)\s*\((.*)\)\s*([^()]*)$', re.I | re.S)


def parse_ddl(text):
    m = DDL.match(text)
    if not m:
        return None
    cols, cons = [], []
    for d in split_top(m.group(2)):
        if re.match(r'^(constraint|primary\s+key|foreign\s+key|unique|index|key)\b', d, re.I):
            cons.append(d)
        else:
            name, _, rest = d.partition(' ')
            tm = re.match(r'\s*(\w+)\s*(?:\(([^)]*)\))?(.*)$', rest, re.S)
            cols.append((name, tm.group(1).upper(), tm.group(2), ' '.join(tm.group(3).split()).upper()))
    return m.group(1), cols, cons


def creates():
    """(tag, parser tree, encrypted columns)"""
    res = []
    types = [('int', {'int': {}}), ('int', {'int': 11}), ('varchar', {'varchar': 20}), ('char', {'char': 5}),
             ('float', {'float': {}}), ('double', {'double': {}})]

    def enc(name, fuzzy=False, arith=False, sm4=False):
        e = {'fuzzy': fuzzy, 'key': Sym('key:' + name, 'str')}
        if arith:
            e.update(arithmetic=True, homomorphic_key=[Sym('hk0:' + name, 'int'), Sym('hk1:' + name, 'int')])
        if sm4:
            e.update(sm4=True, sm4_key=Sym('sm4key:' + name, 'str'))
        return e
    for typ, t in types:
        for fz, ar, sm in itertools.product((False, True), repeat=3):
            res.append(('%s fuzzy=%d arithmetic=%d sm4=%d' % (t, fz, ar, sm),
                        {'create table': {'replace': False, 'name': 'n', 'columns': [
                            {'name': 'x', 'type': t}, {'name': 'p', 'type': {'varchar': 7}}]}}, {'x': enc('x', fz, ar, sm)}))
    for n in LENGTHS:
        for t in STRINGS:
            if t == 'char' and n > 255:
                continue
            res.append(('%s(%d)' % (t, n), {'create table': {'replace': False, 'name': 'n', 'columns':
                       {'name': 'x', 'type': {t: n}}}}, {'x': enc('x')}))
    for nullable in (True, False):
        for pk in (None, True):
            c = {'name': 'x', 'type': {'int': {}}, 'nullable': nullable}
            if pk:
                c['primary_key'] = True
            res.append(('int null=%s pk=%s' % (nullable, pk), {'create table': {'replace': False, 'name': 'n', 'columns': [
                c, {'name': 'p', 'type': {'int': {}}, 'nullable': nullable}]}}, {'x': enc('x', True)}))
    res.append(('default null', {'create table': {'replace': False, 'name': 'n', 'columns': [
        {'name': 'x', 'type': {'varchar': 9}, 'default': {'null': {}}}, {'name': 'p', 'type': {'int': {}}, 'default': {'null': {}}}]}},
        {'x': enc('x', True, False, True)}))
    res.append(('many', {'create table': {'replace': False, 'name': 'n', 'columns': [
        {'name': 'a', 'type': {'int': {}}}, {'name': 'p', 'type': {'int': {}}}, {'name': 'bB', 'type': {'varchar': 8}},
        {'name': 'q', 'type': {'double': {}}}, {'name': 'c', 'type': {'double': {}}}]}},
        {'a': enc('a', True, True), 'bB': enc('bB', True), 'c': enc('c')}))
    res.append(('all plain', {'create table': {'replace': False, 'name': 'n', 'columns': [
        {'name': 'a', 'type': {'int': {}}}, {'name': 'p', 'type': {'varchar': 4}}]}}, {}))
    res.append(('primary key', {'create table': {'replace': False, 'name': 'n', 'columns': [
        {'name': 'a', 'type': {'int': {}}}, {'name': 'p', 'type': {'int': {}}}],
        'constraint': {'primary_key': {'columns': ['a', 'p']}}}}, {'a': enc('a', True)}))
    res.append(('foreign key', {'create table': {'replace': False, 'name': 'n', 'columns': [
        {'name': 'a', 'type': {'varchar': 5}}, {'name': 'p', 'type': {'int': {}}}],
        'constraint': [{'name': 'fk', 'foreign_key': {'columns': 'a', 'references': {'table': 's', 'columns': 'v'}}}]}},
        {'a': enc('a')}))
    return res


REFUSED = [
    ('column not in the table', {'create table': {'replace': False, 'name': 'n', 'columns': [{'name': 'x', 'type': {'int': {}}}]}},
     {'X': {'fuzzy': False, 'key': Sym('k', 'str')}}),
    ('column not in the table', {'create table': {'replace': False, 'name': 'n', 'columns': [
        {'name': 'x', 'type': {'int': {}}}, {'name': 'y', 'type': {'int': {}}}]}},
     {'x': {'fuzzy': False, 'key': Sym('k', 'str')}, 'z': {'fuzzy': False, 'key': Sym('k', 'str')}}),
    ('table exists', {'create table': {'replace': False, 'name': 't', 'columns': [{'name': 'x', 'type': {'int': {}}}]}},
     {'x': {'fuzzy': False, 'key': Sym('k', 'str')}}),
    ('table exists', {'create table': {'replace': False, 'name': 's', 'columns': {'name': 'x', 'type': {'int': {}}}}}, {}),
] + [('type %s' % t, {'create table': {'replace': False, 'name': 'n', 'columns': [{'name': 'x', 'type': {t: {}}}]}},
      {'x': {'fuzzy': False, 'key': Sym('k', 'str')}}) for t in ('text', 'date', 'datetime', 'blob', 'bigint', 'decimal')] + [
    ('constant default', {'create table': {'replace': False, 'name': 'n', 'columns': [
        {'name': 'x', 'type': {'varchar': 9}, 'default': d}]}}, {'x': {'fuzzy': f, 'key': Sym('k', 'str')}})
    for d in ({'literal': 'abc'}, 'current_timestamp', 7) for f in (True, False)]


def type_ok(label, typ, ctype, arg, length):
    """can the declared physical type hold every ciphertext of the label?"""
    n = None
    if arg and re.match(r'^\d+', arg):
        n = int(re.match(r'^\d+', arg).group())
    if label == 'order-preserving':
        if typ == 'int':
            return ctype == 'BIGINT' or ctype in ('DECIMAL', 'NUMERIC') and n and n >= 20 and ',' not in arg
        return ctype in ('DECIMAL', 'NUMERIC') and n and n >= 65 and arg.replace(' ', '') in ('65', '65,0')
    if label == 'arithmetic':
        return ctype in ('DECIMAL', 'NUMERIC') and arg and arg.replace(' ', '') in ('65', '65,0')
    if ctype in ('TEXT', 'MEDIUMTEXT', 'LONGTEXT'):
        return True
    if label in ('fuzzy', 'sm4'):
        return ctype == 'VARCHAR' and n is not None and n >= 1000
    if typ in STRINGS:
        need = 4 * -(-(16 * -(-length // 16)) // 3)
        return n is not None and n >= need and (ctype == 'VARCHAR' or ctype == 'CHAR' and n <= 255)
    return ctype == 'VARCHAR' and n is not None and n >= {'int': 44, 'float': 300, 'double': 300}[typ]


def check_M01(project, rep):
    pl = Pipeline(project)
    for tag, js, enc in creates():
        rep.count('create_shapes')
        n = 0
        for v, s in pl.invoke(js, 'CREATE', encrypted_cols=enc):
            rep.count('paths')
            if isinstance(v, Exc):
                continue
            n += 1
            ex = executes(s)
            if not rep.check(len(ex) == 1, tag, '%d statements are sent' % len(ex)):
                continue
            tx = Text()
            text = tx(ex[0].args[0])
            ddl = parse_ddl(text)
            if not rep.check(ddl is not None, tag + ': statement', 'not a CREATE TABLE: %s' % text[:300]):
                continue
            info = memory(pl, s)[DB].get('n')
            if not rep.check(isinstance(info, dict), tag + ': metadata', 'no metadata for the table'):
                continue
            one_table(rep, tag, js['create table'], enc, ddl, info, tx)
        rep.check(n > 0, tag + ': refused', 'a table of supported columns cannot be created')
    for tag, js, enc in REFUSED:
        before = None
        for v, s in pl.invoke(js, 'CREATE', encrypted_cols=enc):
            rep.count('refusals')
            rep.check(isinstance(v, Exc) and not executes(s), 'refuse: ' + tag,
                      'CREATE (%s) is executed: %r' % (tag, [e.args for e in executes(s)][:1]), 'refused: ' + tag)
            rep.check(set(memory(pl, s)[DB]) == set(pl.meta[DB]) and
                      all(memory(pl, s)[DB][t]['anonymous'] == pl.meta[DB][t]['anonymous'] for t in pl.meta[DB]),
                      'refuse: %s: metadata' % tag, 'the metadata is changed by a refused CREATE')
            rep.check(not store(s, 'executemany', 'execute'), 'refuse: %s: store' % tag, 'the metadata store is written')
    rep.need('create_shapes', 90)
    rep.need('refusals', 10)


def one_table(rep, tag, create, enc, ddl, info, tx):
    table, cols, cons = ddl
    rep.check(tx(info['anonymous']) == table, tag + ': table name', 'created as %s, recorded as %s' % (
        table, tx(info['anonymous'])), '%s: table recorded under its physical name' % tag)
    rep.check('\u00ab' in table, tag + ': table name', 'the physical table name %s is not random' % table)
    cl = create['columns'] if isinstance(create['columns'], list) else [create['columns']]
    names = [c[0] for c in cols]
    rep.check(len(set(names)) == len(names), tag + ': names', 'physical columns share a name: %s' % names)
    by = {c[0]: c for c in cols}
    rep.check([c['name'] for c in cl] == list(info['columns']), tag + ': columns', 'recorded columns: %s' % list(info['columns']))
    seen = []
    for c in cl:
        ci = info['columns'].get(c['name'])
        if ci is None:
            continue
        typ, length = list(c['type'].items())[0]
        rep.check(ci['type'] == typ, tag + ': type', '%s is recorded as %s' % (typ, ci['type']))
        null = {True: ' NULL', False: ' NOT NULL', None: ''}[c.get('nullable')]
        if c['name'] not in enc:
            rep.count('plain_columns')
            rep.check(ci['plaintext'] is True and not ci['enc-cols'], tag + ': plain', 'a plain column is recorded as %r' % ci)
            p = by.get(c['name'])
            if rep.check(p is not None, tag + ': plain', 'plain column %s is not created' % c['name']):
                seen.append(c['name'])
                rep.check(p[1] == typ.upper() and (p[2] or '') == (str(length) if length else ''), tag + ': plain type',
                          'created as %s(%s)' % (p[1], p[2]))
                rep.check(null_of(p[3]) == null, tag + ': null', 'nullable=%s is created as %s' % (c.get('nullable'), p[3]))
            continue
        e = enc[c['name']]
        labels = {'symmetric'} | ({'order-preserving'} if typ not in STRINGS else set()) | (
            {'fuzzy'} if e['fuzzy'] else set()) | ({'arithmetic'} if e.get('arithmetic') else set()) | (
            {'sm4'} if e.get('sm4') else set())
        rep.check(ci['plaintext'] is False, tag + ': flag', 'encrypted column %s is recorded as plaintext' % c['name'])
        rep.check(set(ci['enc-cols']) == labels, tag + ': ciphers', '%s gets the columns %s, asked for %s' % (
            c['name'], sorted(ci['enc-cols']), sorted(labels)), '%s: %s' % (tag, sorted(labels)))
        rep.check(ci['key'] == e['key'], tag + ': key', 'the key of %s is recorded as %r' % (c['name'], ci['key']))
        if e.get('arithmetic'):
            rep.check(ci.get('homomorphic_key') == e['homomorphic_key'], tag + ': homomorphic key', repr(ci.get('homomorphic_key')))
        if e.get('sm4'):
            rep.check(ci.get('sm4_key') == e['sm4_key'], tag + ': sm4 key', repr(ci.get('sm4_key')))
        rep.check(c['name'] not in by, tag + ': clear column', 'encrypted column %s is created under its own name' % c['name'])
        pks = 0
        for label, ph in ci['enc-cols'].items():
            rep.count('physical_columns')
            p = by.get(tx(ph))
            if not rep.check(p is not None, tag + ': %s' % label, 'the recorded %s column %s is not created (%s)' % (
                    label, tx(ph), names)):
                continue
            seen.append(p[0])
            rep.check('\u00ab' in p[0], tag + ': name', 'the physical name %s is not random' % p[0])
            rep.check(type_ok(label, typ, p[1], p[2], length if isinstance(length, int) else 0), tag + ': %s type' % label,
                      'the %s column of a %s(%s) is created as %s(%s)' % (label, typ, length, p[1], p[2]))
            rep.check(null_of(p[3]) == null, tag + ': null', 'nullable=%s is created as %s' % (c.get('nullable'), p[3]))
            pks += 'PRIMARY KEY' in p[3]
            d = re.search(r'DEFAULT\s+(\S+)', p[3])
            rep.check((d.group(1) if d else None) == ('NULL' if 'default' in c else None), tag + ': default', p[3])
        rep.check(pks == (1 if c.get('primary_key') else 0), tag + ': primary key', '%d primary keys' % pks)
    rep.check(sorted(seen) == sorted(names), tag + ': columns', 'created %s, recorded %s' % (names, seen))
    k = create.get('constraint')
    if k:
        ks = k if isinstance(k, list) else [k]
        if rep.check(len(cons) == len(ks), tag + ': constraints', repr(cons)):
            for want, got in zip(ks, cons):
                d = want.get('primary_key') or want.get('foreign_key')
                lc = d['columns'] if isinstance(d['columns'], list) else [d['columns']]
                ph = ','.join(tx(phys_of(info['columns'][x])) or x for x in lc)
                ref = ''
                if d.get('references'):
                    m = schema()[DB][d['references']['table']]
                    ref = ' REFERENCES %s(%s)' % (m['anonymous'], m['columns'][d['references']['columns']]['enc-cols']['symmetric'])
                kind = 'PRIMARY KEY' if 'primary_key' in want else 'FOREIGN KEY'
                body = re.sub(r'^CONSTRAINT \S+ ', '', got)
                rep.check(body.replace(' ', '').lower() == ('%s(%s)%s' % (kind, ph, ref)).replace(' ', '').lower(),
                          tag + ': constraint', 'constraint %s becomes %s' % (want, got), got)


def phys_of(ci):
    return '' if ci['plaintext'] else ci['enc-cols']['symmetric']


def null_of(rest):
    rest = ' ' + re.sub(r'DEFAULT\s+\S+', '', rest)
    return ' NOT NULL' if ' NOT NULL' in rest else ' NULL' if ' NULL' in rest else ''


# ------------------------------------------------------------------------------------------ M02
def tables(pl, s):
    m = memory(pl, s)
    return {t: repr(v) for t, v in m.get(DB, {}).items()}


def store_effect(s):
    """net effect on the store, in order: [('insert'|'delete', table)] up to the last commit"""
    eff, done = [], []
    for e in s.trace:
        if e.kind == 'call' and side(e) == 'store':
            if e.name in ('execute', 'executemany') and e.args:
                sql = str(e.args[0].v if isinstance(e.args[0], K) else repr(e.args[0])).lower()
                verb = sql.split(None, 1)[0] if sql.split() else ''
                if verb in ('insert', 'delete', 'update', 'replace'):
                    eff.append((verb, e))
            elif e.name == 'commit':
                done += eff
                eff = []
    return done, eff


def check_M02(project, rep):
    for q, js, enc in statements():
        pl = Pipeline(project)
        before = tables(pl, pl.states()[0])
        for v, s in pl.invoke(js, q, encrypted_cols=enc, rows=[(Sym('a', 'str'), Sym('b', 'str'))]):
            rep.count('outcomes')
            after = tables(pl, s)
            done, pending = store_effect(s)
            verbs = [d[0] for d in done]
            rep.check(not pending, '%s: store not committed' % q, 'a change of the metadata store is not committed: %s' % [
                p[0] for p in pending])
            if isinstance(v, Exc):
                rep.check(after == before and not done, '%s: refused' % q, 'a refused statement changed the metadata')
                continue
            rep.check(same_both(pl, s), '%s: two views' % q, 'the metadata seen through the class and through the instance differ')
            if q == 'CREATE':
                rep.check(set(after) == set(before) | {'n'}, 'CREATE', 'tables afterwards: %s' % sorted(after),
                          'CREATE adds its table')
                rep.check(verbs == ['insert'], 'CREATE: store', 'the store sees %s' % verbs)
            elif q == 'DROP':
                rep.check(set(after) == set(before) - {'t'}, 'DROP', 'tables afterwards: %s' % sorted(after),
                          'DROP removes its table')
                if rep.check(verbs == ['delete'], 'DROP: store', 'the store sees %s' % verbs):
                    rep.check(delete_of(done[0][1], 't'), 'DROP: store', 'the store runs %r' % (done[0][1].args,))
                ex = [i for i, e in enumerate(s.trace) if e in executes(s)]
                de = [i for i, e in enumerate(s.trace) if e is done[0][1]] if done else []
                rep.check(ex and de and max(ex) < min(de), 'DROP: order', 'the metadata is deleted before the table is dropped')
            else:
                rep.check(after == before and not done, '%s' % q, '%s changes the metadata' % q, '%s leaves the metadata' % q)
                continue
            for t in before:
                if t in after:
                    rep.check(after[t] == before[t], '%s: other tables' % q, 'the metadata of %s changed' % t)
        # the backend refuses
        for what in (('execute',), ('cursor',), ('commit',)):
            if what == ('commit',) and q in ('SELECT', 'DROP', 'CREATE'):
                continue
            pl = Pipeline(project)
            before = tables(pl, pl.states()[0])
            pl.I.may_raise = at('backend', what)
            for v, s in pl.invoke(js, q, encrypted_cols=enc, rows=[(Sym('a', 'str'), Sym('b', 'str'))]):
                if not any(e.kind == 'raised' for e in s.trace):
                    continue
                rep.count('backend_failures')
                pl.I.may_raise = None
                after = tables(pl, s)
                pl.I.may_raise = at('backend', what)
                done, pending = store_effect(s)
                key = '%s rejected (%s)' % (q, what[0])
                if q == 'CREATE' and what == ('cursor',):
                    continue
                rep.check(after == before, key, 'the metadata afterwards: %s, before: %s' % (sorted(after), sorted(before)),
                          '%s: metadata unchanged' % key)
                rep.check(not pending, key + ': store not committed', 'pending: %s' % [p[0] for p in pending])
                net = [d for d in done]
                if q == 'CREATE':
                    ok = not net or [d[0] for d in net] == ['insert', 'delete'] and delete_of(net[1][1], 'n')
                else:
                    ok = not net
                rep.check(ok, key + ': store', 'the store sees %s' % [d[0] for d in net])
    store_texts(project, rep, 'delete')
    odd_drops(project, rep)
    first_tables(project, rep)
    rep.need('outcomes', 8)
    rep.need('odd_drops', 10)
    rep.need('backend_failures', 12)


# names a client can write, bare or in backquotes
NAMES = ('N', 'nN', '_n', 'n_', '__', ' n', 'n n', 'n-1', '1n', "n'x", 'n"x', 'n\\x', 'n%s', 'n?', 'n;--', 'n{0}', '\u00f1\u540d',
         'null', 'None', 'true', 'value', 'table', 'columns', 'p_db_meta', 'n' * 64, 'N' * 64, '$n', '0', 'n,m', 'n\ta')


def odd_drops(project, rep):
    """DROP of a table removes that one only, whatever its name and the names of the others"""
    near = ['n'] + list(NAMES)
    meta = {d: dict(t) for d, t in schema().items()}
    one = meta[DB]['t']
    for n in near:
        meta[DB][n] = one
    meta['other'] = {n: one for n in near}
    for n in NAMES:
        pl = Pipeline(project, meta)
        before = memory(pl, pl.states()[0])
        for v, s in pl.invoke({'drop': {'table': n}}, 'DROP'):
            if isinstance(v, Exc):
                continue
            rep.count('odd_drops')
            after = memory(pl, s)
            gone = {(d, t) for d in before for t in before[d]} ^ {(d, t) for d in after for t in after[d]}
            rep.check(gone == {(DB, n)}, 'DROP of %r' % n[:9], 'the tables %s are forgotten' % sorted(gone), 'DROP %r' % n[:9])
            done, pending = store_effect(s)
            rep.check([d[0] for d in done] == ['delete'] and delete_of(done[0][1], n), 'DROP of %r: store' % n[:9],
                      'the store runs %r' % ([d[1].args for d in done],))


def first_tables(project, rep):
    """the first table of a database, of the gateway; the last one dropped; a name that is free again or used elsewhere"""
    full = schema()
    one = full[DB]['t']
    for tag, meta in (('nothing known', {}), ('no tables', {DB: {}}), ('another database', {'other': {'u': one}}),
                      ('the name elsewhere', {'other': {'n': one}, DB: {'u': one}})):
        pl = Pipeline(project, meta)
        before = memory(pl, pl.states()[0])
        oks = 0
        for v, s in pl.invoke(CREATE if CREATE['create table']['name'] == 'n' else named('n', CREATE), 'CREATE', encrypted_cols=ENCRYPTED):
            done, pending = store_effect(s)
            after = memory(pl, s)
            rep.count('outcomes')
            if isinstance(v, Exc):
                rep.check(not done and not pending and repr(after) == repr(before), 'CREATE, %s: refused' % tag,
                          'a refused CREATE leaves %s in the store' % [d[0] for d in done + pending])
                continue
            oks += 1
            rep.check([d[0] for d in done] == ['insert'] and not pending, 'CREATE, %s: store' % tag,
                      'the store sees %s' % [d[0] for d in done])
            want = {(d, t) for d in before for t in before[d]} | {(DB, 'n')}
            rep.check({(d, t) for d in after for t in after[d]} == want, 'CREATE, %s' % tag,
                      'tables afterwards: %s' % sorted((d, t) for d in after for t in after[d]), 'CREATE, %s' % tag)
        rep.check(oks > 0, 'CREATE, %s' % tag, 'no table can be created')
    pl = Pipeline(project, {DB: {'t': one}, 'other': {'t': one}})
    for v, s in pl.invoke({'drop': {'table': 't'}}, 'DROP'):
        if not isinstance(v, Exc):
            rep.count('outcomes')
            after = memory(pl, s)
            rep.check({(d, t) for d in after for t in after[d]} == {('other', 't')}, 'DROP of the last table', repr(after)[:200])


def odd_creates(project, rep):
    """whatever characters the names of the table and its columns have, a restart knows it under the same names"""
    _, js, enc = [c for c in creates() if c[0] == 'many'][0]
    key = enc['a']
    for n in NAMES:
        pl = Pipeline(project, intrinsics=json_intrinsics())
        j = named(n, js)
        j['create table']['columns'] = [{'name': n, 'type': {'int': {}}}, {'name': n + 'x', 'type': {'int': {}}},
                                        {'name': 'b', 'type': {'varchar': 9}}]
        for v, s in pl.invoke(j, 'CREATE', encrypted_cols={n: key, 'b': enc['bB']}):
            if isinstance(v, Exc):
                continue
            rep.count('odd_names')
            want = memory(pl, s)[DB].get(n)
            if not rep.check(isinstance(want, dict), 'CREATE of %r' % n[:9], 'the table is not known by its name'):
                continue
            rep.check(list(want['columns']) == [n, n + 'x', 'b'], 'CREATE of %r: columns' % n[:9], repr(list(want['columns'])))
            got = reload(project, inserted_rows(s))
            if not rep.check(isinstance(got, dict) and list(got) == [DB] and list(got[DB]) == [n], 'restart with %r' % n[:9],
                             'a restart knows %s' % (repr(got and {d: list(t) for d, t in got.items()}),)):
                continue
            rep.check(repr(got[DB][n].get('anonymous')) == repr(want['anonymous']) and
                      norm(got[DB][n].get('columns')) == norm(want['columns']) and
                      list(got[DB][n]['columns']) == list(want['columns']),
                      'restart with %r: columns' % n[:9], 'the columns are read back as %s' % (repr(got[DB][n])[:300],),
                      'table %r survives a restart' % n[:9])


def same_both(pl, s):
    return repr(class_memory(pl, s)) == repr(memory(pl, s))


def delete_of(e, table):
    """does the event delete exactly the rows of (DB, table)?"""
    sql = e.args[0].v if isinstance(e.args[0], K) else ''
    if len(e.args) < 2 or not isinstance(e.args[1], Tup):
        return False
    cols = re.findall(r'(\w+)\s*=\s*(?:%s|\?)', sql)
    vals = [x.v if isinstance(x, K) else x for x in e.args[1].items]
    return dict(zip(cols, vals)) == {'database_name': DB, 'table_name': table}


# ------------------------------------------------------------------------------------------ M03
def json_intrinsics():
    def dumps(I, a, k, st, n, fr):
        return [(T('json', (I.freeze(a[0], st),), 'str'), st)]

    def loads(I, a, k, st, n, fr):
        if isinstance(a[0], T) and a[0].op == 'json':
            return [(thaw(a[0].args[0], st), st)]
        return None
    return {'json.dumps': dumps, 'json.loads': loads}


def thaw(v, st):
    """frozen structure -> heap structure (json turns tuples into lists)"""
    if isinstance(v, T) and v.op == 'list':
        return st.list([thaw(x, st) for x in v.args])
    if isinstance(v, T) and v.op == 'dict':
        return st.dict({thaw(p.items[0], st): thaw(p.items[1], st) for p in v.args})
    return v


class Store:
    """p_db_meta as data/schema-sqlite.sql declares it; runs the texts the gateway hands to the store, for their meaning"""

    def __init__(self, project):
        path = os.path.join(project.root, 'data', 'schema-sqlite.sql')
        m = re.search(r'create\s+table\s+(?:if\s+not\s+exists\s+)?[`"]?p_db_meta[`"]?\s*\([^;]*;',
                      open(path, encoding='utf-8').read(), re.I)
        if not m:
            raise AnalysisError('p_db_meta is not created by schema-sqlite.sql')
        self.db = sqlite3.connect(':memory:')
        self.db.execute(m.group())

    def add(self, rows):
        self.db.executemany('insert into p_db_meta values (?,?,?,?,?,?)', rows)

    def run(self, e, rep, key):
        """executes the event's text with its arguments (unknown values stand for themselves) -> the rows it reads"""
        if not e.args or not isinstance(e.args[0], K) or not isinstance(e.args[0].v, str):
            raise AnalysisError('%s: a text that depends on values reaches the store: %r' % (key, e.args[:1]))
        sql, rows, out = re.sub(r'%s', '?', e.args[0].v), [[]], []

        def items(a):
            return list(a.args if isinstance(a, T) else a.items if isinstance(a, Tup) else a)
        if len(e.args) > 1:
            rows = [items(r) for r in items(e.args[1])] if e.name == 'executemany' else [items(e.args[1])]
        try:
            for r in rows:
                out += self.db.execute(sql, [x.v if isinstance(x, K) else repr(x) for x in r]).fetchall()
        except sqlite3.Error as x:
            rep.check(False, key, 'the store runs %r with %d values: %s' % (e.args[0].v, len(r), x))
        return out

    def table(self):
        return sorted(self.db.execute('select * from p_db_meta').fetchall(), key=repr)


def store_texts(project, rep, what):
    """under every configuration: the meaning of the texts run on the store by CREATE, DROP and the load"""
    base = Pipeline(project)
    others = [(DB, 'mysql', 'u', 'p', 'c', ''), ('other', 'mysql', 't', 'p', 'c', ''), ('other', 'mysql', 'n', 'p', 'c', ''),
              ('t', 'mysql', DB, 'p', 'c', ''), (DB, 'mysql', 'tt', 'p', 'c', ''), (DB, 'mysql', 'T', 'p', 'c', '')]
    q, js, enc = ('DROP', {'drop': {'table': 't'}}, None) if what == 'delete' else ('CREATE', CREATE, ENCRYPTED)
    for start in base.starts(CTX):
        key = '%s (%s): text' % (q, kind_of_store(start))
        for v, s in from_state(base, start.copy(), js, q, enc):
            if isinstance(v, Exc):
                continue
            st = Store(project)
            st.add(others)
            want = list(others)
            if q == 'DROP':
                st.add([(DB, 'mysql', 't', 'p%d' % i, 'c%d' % i, '') for i in range(2)])
            else:
                mine = [tuple(x.v if isinstance(x, K) else repr(x) for x in r.items) for r in inserted_rows(s)]
                rep.check(mine and all(len(r) == 6 and (r[0], r[2]) == (DB, 'n') for r in mine), key, 'the rows stored are %r' % (mine,))
                want += mine
            evs = [e for e in store(s, 'execute', 'executemany') if verb_of(e) in WRITES]
            rep.count('store_texts', len(evs))
            for e in evs:
                st.run(e, rep, key)
            rep.check(st.table() == sorted(want, key=repr), key, 'the store then holds %r, expected %r (%r)' % (
                st.table(), sorted(want, key=repr), [e.args[0] for e in evs]), '%s changes exactly its own rows' % key)
    if what == 'delete':
        rep.need('store_texts', 2)
        return
    mod = 'scheduler.schema.metadata'
    pl = Pipeline(project)
    for start in pl.I.start(mod):
        d = pl.I.mod_get(mod, 'Delta', start)
        for v, s in pl.I.call(d, [], {}, start.copy(), None, None):
            if isinstance(v, Exc):
                continue
            evs = [e for e in s.trace if e.kind == 'call' and e.name in ('execute', 'executemany') and 'config' in syms_in(e.recv)]
            key = 'load (%s): text' % kind_of_store(s)
            st = Store(project)
            full = others + [(DB, 'mysql', 'big', 'p', 'c%d' % i, '') for i in range(3 * COLUMNS)]
            st.add(full)
            got = [r for e in evs for r in st.run(e, rep, key)]
            rep.count('store_texts', len(evs))
            rep.check(sorted(r[:5] for r in got) == sorted(r[:5] for r in full) and st.table() == sorted(full, key=repr),
                      key, 'of %d rows the load reads %d: %r' % (len(full), len(got), got[:5]), key + ' reads every row')
    rep.need('store_texts', 4)


def check_M03(project, rep):
    """store failures leave memory as it was; a restart reads back what CREATE recorded"""
    for q, js, enc in statements():
        if q not in ('CREATE', 'DROP'):
            continue
        for what in ('execute', 'executemany', 'commit', 'cursor'):
            pl = Pipeline(project)
            before = tables(pl, pl.states()[0])
            pl.I.may_raise = at('store', (what,))
            for v, s in pl.invoke(js, q, encrypted_cols=enc):
                if not any(e.kind == 'raised' for e in s.trace):
                    continue
                rep.count('store_failures')
                pl.I.may_raise = None
                after = tables(pl, s)
                pl.I.may_raise = at('store', (what,))
                rep.check(isinstance(v, Exc), '%s: failing store %s' % (q, what), 'is answered as success')
                rep.check(after == before, '%s: failing store %s: memory' % (q, what),
                          'memory has %s, the store still has %s' % (sorted(after), sorted(before)),
                          '%s with a failing store %s leaves memory unchanged' % (q, what))
                if q == 'CREATE':
                    rep.check(not executes(s), 'CREATE: failing store %s: backend' % what,
                              'the table is created although its keys are not stored')
    for tag, js, enc in [c for c in creates() if c[0] in ('many', 'all plain') or 'fuzzy=1 arithmetic=1 sm4=1' in c[0]]:
        pl = Pipeline(project, intrinsics=json_intrinsics())
        for v, s in pl.invoke(js, 'CREATE', encrypted_cols=enc):
            if isinstance(v, Exc):
                continue
            rows = inserted_rows(s)
            want = memory(pl, s)[DB]['n']
            if not rep.check(bool(rows), tag + ': rows', 'nothing is stored'):
                continue
            rep.count('restarts')
            got = reload(project, rows)
            if not rep.check(got is not None, tag + ': reload', 'the stored rows cannot be read back'):
                continue
            t = got.get(DB, {}).get('n') if isinstance(got, dict) else None
            ok = isinstance(t, dict) and set(got) == {DB} and set(got[DB]) == {'n'}
            rep.check(ok, tag + ': reload', 'a restart reads %s' % (repr(got)[:300],))
            if ok:
                rep.check(repr(t.get('anonymous')) == repr(want['anonymous']), tag + ': physical table', repr(t.get('anonymous')))
                rep.check(list(t.get('columns', {})) == list(want['columns']), tag + ': columns', repr(list(t.get('columns', {}))))
                for c in want['columns']:
                    rep.count('columns_compared')
                    rep.check(norm(t.get('columns', {}).get(c)) == norm(want['columns'][c]), tag + ': column',
                              'column %s is read back as %r' % (c, t.get('columns', {}).get(c)), '%s.%s survives a restart' % (tag, c))
    # two tables and two databases stay apart
    pl = Pipeline(project, intrinsics=json_intrinsics())
    (_, js, enc), (_, js2, enc2) = [c for c in creates() if c[0] in ('many', 'all plain')]
    rows = []
    for j, e in ((js, enc), (js2, enc2)):
        v, s = [x for x in pl.invoke(j, 'CREATE', encrypted_cols=e) if not isinstance(x[0], Exc)][0]
        rows.append(inserted_rows(s))
    mixed = [Tup([K('other' if i in (0,) else 'u' if i == 2 else None) if i in (0, 2) else x for i, x in enumerate(r.items)])
             for r in rows[1]]
    third = [Tup([K('u') if i == 2 else x for i, x in enumerate(r.items)]) for r in rows[1]]
    for order in (rows[0] + mixed + third, mixed + rows[0] + third, [x for p in zip(rows[0], mixed, third) for x in p] + rows[0][len(mixed):]):
        got = reload(project, order)
        rep.count('restarts')
        rep.check(isinstance(got, dict) and {d: set(t) for d, t in got.items()} == {DB: {'n', 'u'}, 'other': {'u'}} and
                  list(got[DB]['n']['columns']) == ['a', 'p', 'bB', 'q', 'c'] and list(got['other']['u']['columns']) == ['a', 'p']
                  and list(got[DB]['u']['columns']) == ['a', 'p'], 'several tables', 'a restart reads %s' % (repr(got)[:300],),
                  'rows of several tables and databases are kept apart')
    capacity(project, rep)
    store_texts(project, rep, 'insert')
    odd_creates(project, rep)
    got = reload(project, [])
    rep.check(got == {}, 'empty store', 'an empty store is read as %r' % (got,))
    rep.need('store_failures', 5)
    rep.need('restarts', 8)
    rep.need('columns_compared', 10)
    rep.need('odd_names', 10)


def capacity(project, rep):
    """the store's own schema has the six columns of a row, and room for the names and keys of any column"""
    import os
    for f in ('schema-mysql.sql', 'schema-sqlite.sql'):
        path = os.path.join(project.root, 'data', f)
        if not os.path.exists(path):
            raise AnalysisError('data/%s is gone' % f)
        m = re.search(r'create\s+table\s+(?:if\s+not\s+exists\s+)?`?p_db_meta`?\s*\((.*?)\)\s*([^(),;]*);', open(path).read(),
                      re.I | re.S)
        if not rep.check(m is not None, f, 'p_db_meta is not created'):
            continue
        cols = [d.split() for d in split_top(m.group(1))]
        rep.count('store_columns', len(cols))
        rep.check([c[0] for c in cols] == ['database_name', 'database_type', 'table_name', 'table_anonymous', 'col_info',
                                           'key_info'], f, 'p_db_meta has the columns %s' % [c[0] for c in cols])
        for i, c in enumerate(cols[:6]):
            # names that differ in case or accents are names of different tables to the gateway
            if i in (0, 2) and 'mysql' in f:
                own = re.search(r'collate\s*=?\s*(\w+)', ' '.join(c[1:]) + ' ' + m.group(2), re.I)
                binary = own and own.group(1).lower().endswith(('_bin', '_cs')) or len(c) > 2 and c[-1].lower() == 'binary' or \
                    c[1].lower().startswith('varbinary')
                rep.check(bool(binary), '%s: %s collation' % (f, c[0]), 'the store takes names of tables that differ in case for '
                          'the same: dropping Sale removes the metadata of sale', '%s: %s tells names apart' % (f, c[0]))
            elif i in (0, 2):
                rep.check(not re.search(r'nocase', ' '.join(c[1:]), re.I), '%s: %s collation' % (f, c[0]), 'names are '
                          'compared without case')
        for c in cols[4:5]:
            rep.check(re.match(r'(medium|long)?text$|json$', c[1], re.I) is not None, f + ': ' + c[0],
                      'the names and keys of a column are kept in a %s' % c[1], '%s holds col_info of any length' % f)


def norm(x):
    return re.sub(r'@\d+', '@', repr(x))


def inserted_rows(s):
    rows = []
    for e in s.trace:
        if e.kind == 'call' and side(e) == 'store' and e.name in ('execute', 'executemany') and len(e.args) > 1 and \
                isinstance(e.args[0], K) and str(e.args[0].v).lower().startswith('insert'):
            a = e.args[1]
            if e.name == 'executemany':
                items = a.args if isinstance(a, T) and a.op == 'list' else a.items if isinstance(a, Tup) else ()
                rows += [r if isinstance(r, Tup) else Tup(r.args) for r in items]
            else:
                rows.append(a if isinstance(a, Tup) else Tup(a.args))
            n = len(re.findall(r'%s|\?', e.args[0].v))
            if any(len(r.items) != n for r in rows):
                return []
    return rows


def reload(project, rows):
    pl = Pipeline(project, intrinsics=json_intrinsics())
    pl.rows = list(rows)
    for st in pl.I.start('scheduler.schema.metadata')[:1]:
        d = pl.I.mod_get('scheduler.schema.metadata', 'Delta', st)
        for v, s in pl.I.call(d, [], {}, st, None, None)[:1]:
            if isinstance(v, Exc):
                return None
            return memory(pl, s)
    return None


# ------------------------------------------------------------------------------------------ M05
COLUMNS = 1017      # the most columns InnoDB allows
WRITES = ('insert', 'delete', 'update', 'replace')


def store_conn(recv):
    """the connection a term of the metadata store belongs to: .cursor() and .connection stripped"""
    while isinstance(recv, T):
        if recv.op == 'call' and isinstance(recv.args[0], K) and recv.args[0].v == 'cursor':
            recv = recv.args[1]
        elif recv.op == 'attr' and recv.args[-1] == K('connection'):
            recv = recv.args[0]
        else:
            break
    return recv


def verb_of(e):
    sql = e.args[0] if e.args else NONE
    t = sql.v if isinstance(sql, K) else next((a.v for a in getattr(sql, 'args', ()) if isinstance(a, K) and
                                               isinstance(a.v, str)), '')
    return (str(t).split() or [''])[0].lower()


def transactions(trace):
    """replays the store events -> [[write events of one commit]], {connection: writes nobody committed yet},
    failed writes that were committed all the same"""
    done, pending = [], {}
    for e in trace:
        if e.kind not in ('call', 'raised') or side(e) != 'store':
            continue
        c = store_conn(e.recv)
        p = pending.setdefault(c, [])
        if e.name in ('execute', 'executemany') and verb_of(e) in WRITES:
            # what a failing statement (of several rows) wrote before it failed stays in the transaction
            p.append(e)
        elif e.name == 'commit' and e.kind == 'call':
            if p:
                done.append(list(p))
            p.clear()
        elif e.name in ('rollback', 'close') and e.recv == c:
            p.clear()
    return done, {c: p for c, p in pending.items() if p}


def autocommit(term):
    """is the session opened so that every statement commits on its own?"""
    stack, res = [term], []
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.op == 'call' and isinstance(x.args[0], K) and str(x.args[0].v).endswith('connect'):
                t = repr(x)
                m = re.search(r"\bautocommit=(\w+)", t)
                if m and m.group(1) not in ('False', '0'):
                    res.append('autocommit')
                if re.search(r"\bisolation_level=None", t):
                    res.append('isolation_level=None')
            stack.extend(a for a in x.args if isinstance(a, V))
        elif isinstance(x, Tup):
            stack.extend(x.items)
    return res


def own_commits(rep, q, conf, s):
    for e in s.trace:
        if e.kind == 'call' and side(e) == 'store' and e.name in ('execute', 'executemany') and verb_of(e) in WRITES:
            a = autocommit(e.recv)
            rep.check(not a, '%s (%s): autocommit' % (q, conf), 'a statement is written on a connection opened with %s: it is kept '
                      'although a later one of the operation fails' % a)
        elif e.kind == 'extset' and e.name in ('autocommit', 'isolation_level') and side(e) == 'store':
            rep.check(e.args[0] in (K(False), K(0)) if e.name == 'autocommit' else e.args[0] != NONE,
                      '%s (%s): autocommit' % (q, conf), '%s is set to %r' % (e.name, e.args[0]))


def many(n):
    """a CREATE of a table with n columns"""
    return {'create table': {'replace': False, 'name': 'n', 'columns': [{'name': 'c%d' % i, 'type': {'int': {}}} for i in range(n)]}}


def from_state(pl, st, js, q, enc, rows=()):
    pl.json, pl.qtype, pl.rows, pl.alter = js, q, list(rows), None
    f = pl.I.mod_get(CTX, 'invoke', st)
    args = [lift(INFO, st), Sym('sql', 'str'), NONE if enc is None else lift(enc, st)]
    return pl.I.call(f, args, {'columns_info': K(True)}, st, None, None)


def named(name, js):
    import copy
    js = copy.deepcopy(js)
    js['create table']['name'] = name
    return js


def kind_of_store(s):
    """which configuration the state belongs to"""
    return ' & '.join(sorted('%s%s' % ('' if b else 'not ', 'mysql') for f, b in s.facts.items()
                             if 'config' in repr(f) and 'mysql' in repr(f))) or 'any'


def check_M05(project, rep):
    create, enc = CREATE, ENCRYPTED
    drop = {'drop': {'table': 't'}}
    base = Pipeline(project)
    starts = base.starts(CTX)
    rep.check(len(starts) >= 2, 'configurations', 'only %d kind of metadata store found' % len(starts))
    events = ('cursor', 'execute', 'executemany', 'commit', 'ping', 'rollback')
    for start in starts:
        conf = kind_of_store(start)
        rep.count('configurations')
        for q, js, e1 in (('CREATE', named('n', create), enc), ('DROP', drop, None)):
            # 1. without failures: one transaction per operation
            base.I.may_raise = None
            for v, s in from_state(base, start.copy(), js, q, e1):
                if isinstance(v, Exc):
                    continue
                done, pending = transactions(s.trace)
                rep.count('operations')
                rep.check(not pending, '%s (%s): commit' % (q, conf), 'the change is left uncommitted')
                rep.check(len(done) == 1, '%s (%s): one transaction' % (q, conf),
                          'the change is committed in %d pieces: a crash between them keeps a part of it' % len(done),
                          '%s (%s) is one transaction' % (q, conf))
                own_commits(rep, q, conf, s)
            # 2. a failing call, then an operation that works: it commits its own rows only
            for what in events:
                for both in (False, True):
                    st = start.copy()
                    fail = at('store', (what,))
                    if both:
                        if q != 'CREATE' or what in ('cursor', 'ping', 'rollback'):
                            continue
                        back = at('backend', ('execute',))
                        # the backend refuses the CREATE, and the store refuses to take the rows out again

                        def fail(I, e, st, inner=at('store', (what,)), back=back):
                            if back(I, e, st) is not None:
                                return EXCV
                            if any(x.kind == 'raised' and side(x) == 'backend' for x in st.trace):
                                return inner(I, e, st)
                            return None
                    base.I.may_raise = fail
                    outs = from_state(base, st, js, q, e1)
                    base.I.may_raise = None
                    for v, s in outs:
                        if not any(x.kind == 'raised' and side(x) == 'store' for x in s.trace):
                            continue
                        if both and not any(x.kind == 'raised' and side(x) == 'backend' for x in s.trace):
                            continue
                        n = len(s.trace)
                        rep.count('failures')
                        own_commits(rep, q, conf, s)
                        for v2, s2 in from_state(base, s.copy(), named('m', create), 'CREATE', enc):
                            if isinstance(v2, Exc):
                                continue
                            rep.count('histories')
                            done, _ = transactions(s2.trace)
                            late = {id(x) for x in s2.trace[n:]}
                            bad = [e for d in done if any(id(e) in late for e in d) for e in d if id(e) not in late]
                            key = '%s%s (%s): failing %s, then CREATE' % (q, ' rejected' if both else '', conf, what)
                            rep.check(not bad, key, 'the second operation commits what is left of the first: %s' % [
                                (verb_of(e), e.fn and e.fn.name if hasattr(e.fn, 'name') else '') for e in bad],
                                key + ' commits its own rows only')
    # a table of many columns is still one transaction
    base.I.may_raise = None
    for v, s in from_state(base, starts[0].copy(), many(COLUMNS), 'CREATE', {}):
        if not isinstance(v, Exc):
            done, pending = transactions(s.trace)
            rep.count('operations')
            rep.check(len(done) == 1 and not pending, 'CREATE of %d columns' % COLUMNS, 'the change is committed in %d pieces: a '
                      'crash between them keeps a part of it' % len(done), 'CREATE of %d columns is one transaction' % COLUMNS)
    # 3. a failing load leaves no singleton without metadata
    for what in ('cursor', 'execute', 'fetchall'):
        pl = Pipeline(project)
        mod = 'scheduler.schema.metadata'
        for st in pl.I.start(mod):
            d = pl.I.mod_get(mod, 'Delta', st)
            st.trace = ()
            pl.I.may_raise = lambda I, e, s: EXCV if e.name == what else None
            outs = pl.I.call(d, [], {}, st.copy(), None, None)
            pl.I.may_raise = None
            for v, s in outs:
                if not any(x.kind == 'raised' for x in s.trace):
                    continue
                rep.count('failing loads')
                rep.check(isinstance(v, Exc), 'load failing in %s' % what, 'is answered with %r' % (v,))
                for v2, s2 in pl.I.call(d, [], {}, s.copy(), None, None):
                    if isinstance(v2, Exc):
                        continue
                    m, _ = pl.I.getattr(v2, 'meta', s2, None, None)[0]
                    rep.check(m != NONE, 'load failing in %s, then again' % what, 'the metadata object handed out has no metadata',
                              'after a load failing in %s the next one loads' % what)
    rep.need('configurations', 2)
    rep.need('operations', 5)
    rep.need('failures', 12)
    rep.need('histories', 12)
