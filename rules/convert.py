"""The conversion interface (encrypt_sql, encrypt_sql1, encrypt_sql2, rewrite, decrypt_data): clients that talk to the backend
themselves get the statement the gateway would execute, and their rows decrypted as the gateway would."""
from .c_select import *

DB2 = 'db2'


def two_dbs():
    """the schema, and a second database with tables of the same names, other keys and physical names"""
    m = schema3()
    second = {}
    for t, info in m[DB].items():
        cols = {}
        for c, ci in info['columns'].items():
            ci = dict(ci)
            ci['enc-cols'] = {k: 'second_' + v for k, v in ci['enc-cols'].items()}
            for k in ('key', 'sm4_key'):
                if isinstance(ci.get(k), Sym):
                    ci[k] = Sym('second ' + ci[k].name, 'str')
            if 'homomorphic_key' in ci:
                ci['homomorphic_key'] = [Sym('second ' + x.name, 'int') for x in ci['homomorphic_key']]
            cols[c] = ci
        second[t] = dict(info, anonymous='SECOND_' + info['anonymous'], columns=cols)
    m[DB2] = second
    return m


def call(pl, name, args, st):
    f = pl.I.mod_get(CTX, name, st)
    return pl.I.call(f, [lift(a, st) if not isinstance(a, V) else a for a in args], {}, st, None, None)


def executed(s):
    return [e for e in s.trace if e.name in ('execute', 'executemany', 'callproc')]


def others(meta):
    """statements other than SELECT"""
    x, y = Sym('x', 'str'), Sym('y', 'int')
    yield 'INSERT', {'columns': ['v', 'i', 'pv'], 'query': {'select': [{'value': {'literal': x}}, {'value': y}, {
        'value': {'literal': 'p'}}]}, 'insert': 't'}, 'INSERT'
    yield 'UPDATE', {'update': 't', 'set': {'v': {'literal': x}, 'pi': 3}, 'where': {'eq': ['v', {'literal': Sym('z', 'str')}]}}, 'UPDATE'
    yield 'DELETE', {'delete': 't', 'where': {'eq': ['v', {'literal': x}]}}, 'DELETE'
    for w in ({'eq': ['v', {'literal': x}]}, {'and': [{'gt': ['i', y]}, {'like': ['v', {'literal': 'abcd%'}]}]}):
        yield 'SELECT with a constant', {'select': [{'value': 'i'}, {'value': 'v'}], 'from': 't', 'where': w}, 'SELECT'


def ident(v, s):
    r = lower(v, s)
    return r[2] if isinstance(r, (tuple, list)) and len(r) == 3 else None


def sent(pl, n):
    return [repr(c) for c in pl.captured[n:]]


def check_E12(project, rep):
    meta = two_dbs()
    pl = Pipeline(project, meta)
    phys = physical(meta)
    statements = [(tag, js, 'SELECT') for tag, js, want in shapes(meta)] + list(others(meta))
    if rep.tier != 'thorough':
        seen, keep = {}, []
        for st in statements:
            seen[st[0]] = seen.get(st[0], 0) + 1
            if seen[st[0]] < 3:
                keep.append(st)
        statements = keep
    answers = {}
    for k, (tag, js, qt) in enumerate(statements):
        n = len(pl.captured)
        outs = pl.invoke(js, qtype=qt, rows=cells(pl, phys))
        direct = sent(pl, n)
        width = len(outputs(pl.captured[n])) if direct and qt == 'SELECT' else 0
        row = tuple(Sym('cell%d' % i, 'str') for i in range(width))
        want = [lower(v, s) for v, s in outs if not isinstance(v, Exc)]
        want = [w for w in want if isinstance(w, (list, tuple)) and len(w) == 2 and w[1]]
        heads = {repr(w[1][0]) for w in want}
        rows = {repr(list(w[0][0])) for w in want if w[0]}
        fails = {repr(v) for v, s in outs if isinstance(v, Exc)}
        for entry in ('encrypt_sql', 'encrypt_sql1', 'encrypt_sql2', 'rewrite'):
            for db in (DB, DB2) if entry == 'encrypt_sql2' and width else (DB,):
                m = len(pl.captured)
                args = [dict(INFO), Sym('sql', 'str')] if entry == 'encrypt_sql' else \
                    [Sym('sql', 'str'), db] if entry == 'rewrite' else [db, Sym('sql', 'str')]
                res = [r for st in pl.states() for r in call(pl, entry, args, st)]
                got = sent(pl, m)
                rep.count('conversions')
                good = [(v, s) for v, s in res if not isinstance(v, Exc)]
                if db == DB:
                    # for a total the session writes further texts, of its set-up
                    total = direct and ("{'sum':" in direct[0] or "{'avg':" in direct[0])
                    same = set(got) == set(direct) or total and bool(got) and set(got) <= set(direct)
                    rep.check(same, '%s: %s' % (entry, tag), 'the statement handed out is %s, the one executed %s' % (
                        got[:1], direct[:1]), '%s: %s' % (entry, tag))
                    rep.check(bool(good) == bool(direct), '%s: %s' % (entry, tag), '%s although the statement is %s' % (
                        'an answer' if good else 'a refusal', 'executed' if direct else 'refused'))
                for v, s in good:
                    rep.check(not executed(s), '%s: %s' % (entry, tag), 'a conversion executes %r' % (executed(s)[:1],))
                    r = lower(v, s)
                    if entry != 'encrypt_sql' and not rep.check(
                            isinstance(r, (tuple, list)) and len(r) == 2 + (entry == 'encrypt_sql2'), '%s: %s' % (entry, tag),
                            'the answer is %r' % (r,)):
                        continue
                    text = r if entry == 'encrypt_sql' else r[0]
                    rep.check(isinstance(text, T) and text.op == 'sql' and m <= text.args[0].v < len(pl.captured),
                              '%s: %s' % (entry, tag), 'the statement handed out is %r' % (text,))
                    if entry != 'encrypt_sql2' or not width:
                        continue
                    answers.setdefault(db, []).append((tag, js, row, heads, rows))
                    for v2, s2 in call(pl, 'decrypt_data', [{'rows': [row]}, r[2]], s):
                        judge(rep, tag if db == DB else tag + ', second database', v2, s2, heads, rows, db, fails=fails)
    sequences(pl, rep, meta, phys)
    rep.need('conversions', 200)
    rep.need('decryptions', 60)
    rep.need('sequences', 16)


def renamed(text, db):
    return text.replace('second ', '') if db == DB2 else text


def judge(rep, tag, v, s, heads, rows, db, count=1, fails=()):
    rep.count('decryptions')
    if isinstance(v, Exc) and repr(v) in fails:
        return          # a ciphertext the column cannot contain: invoke fails on it too
    if not rep.check(not isinstance(v, Exc), 'decrypt_data: ' + tag, 'the rows of the statement are not decrypted: %r' % (v,)):
        return
    a = lower(v, s)
    if not rep.check(isinstance(a, dict) and {'columns', 'rows'} <= set(a), 'decrypt_data: ' + tag, 'the answer is %r' % (a,)):
        return
    rep.check(repr(list(a['columns'])) in heads, 'decrypt_data: %s: header' % tag, 'the columns are %r, answered directly %s' % (
        a['columns'], sorted(heads)[:1]))
    rep.check(len(a['rows']) == count, 'decrypt_data: %s: rows' % tag, '%d rows are %r' % (count, a['rows']))
    for r in a['rows']:
        if db == DB2:
            bad = [x for x in syms_in(r) if ':' in x and not x.startswith('second ')]
            rep.check(not bad, 'decrypt_data: %s: keys' % tag, 'the keys %s of another database decrypt it' % bad[:3])
        rep.check(not rows or renamed(repr(list(r)), db) in rows, 'decrypt_data: %s: values' % tag,
                  'the row is decrypted to %r, answered directly %s' % (r, sorted(rows)[:1]), 'decrypt_data: %s' % tag)


SEQ = ({'select': [{'value': 'v'}, {'value': 'i'}], 'from': 't'}, {'select': [{'value': 'i'}, {'value': 'v'}], 'from': 't'},
       {'select': [{'value': 'w'}, {'value': 'v'}, {'value': 'i'}], 'from': 's'}, {'select': {'value': {'max': 'i'}}, 'from': 't'},
       {'select': [{'value': 's.v'}, {'value': 't.v'}], 'from': ['t', {'join': 's', 'on': {'eq': ['t.pv', 's.pv']}}]})


def sequences(pl, rep, meta, phys):
    """several statements are converted before the rows of one of them are decrypted, and rows may come in any number"""
    direct = []
    for js in SEQ:
        n = len(pl.captured)
        outs = pl.invoke(js, rows=cells(pl, phys))
        w = len(outputs(pl.captured[n]))
        want = [lower(v, s) for v, s in outs if not isinstance(v, Exc)]
        want = [w for w in want if isinstance(w, (list, tuple)) and len(w) == 2 and w[1]]
        if not want:
            raise AnalysisError('%s is not executed directly' % (SEQ[len(direct)],))
        direct.append((w, {repr(x[1][0]) for x in want}, {repr(list(x[0][0])) for x in want if x[0]}))
    st0 = pl.states()[0]
    runs_ = [(a, b) for a in range(len(SEQ)) for b in range(len(SEQ))]
    for a, b in runs_ if rep.tier == 'thorough' else [(a, b) for a, b in runs_ if a == b or b == (a + 1) % len(SEQ)]:
        for dba, dbb in ((DB, DB), (DB, DB2)):
            rep.count('sequences')
            frontier = [(st0.copy(), [])]
            for k, db in ((a, dba), (b, dbb), (a, dba)):
                nxt = []
                for st, ids in frontier:
                    pl.json = SEQ[k]
                    nxt += [(s, ids + [ident(v, s)]) for v, s in call(pl, 'encrypt_sql2', [db, Sym('sql', 'str')], st)
                            if not isinstance(v, Exc)]
                frontier = nxt
            rep.check(frontier, 'sequence', 'statements %s and %s are refused one after the other' % (SEQ[a], SEQ[b]))
            for st, ids in frontier:
                for which, (k, db) in enumerate(((a, dba), (b, dbb), (a, dba))):
                    w, heads, rows = direct[k]
                    row = tuple(Sym('cell%d' % i, 'str') for i in range(w))
                    for count in (0, 1, 2) if a == b else (1,):
                        for twice in (False, True):
                            frontier2 = [st]
                            if twice:
                                frontier2 = [s for v, s in call(pl, 'decrypt_data', [{'rows': [row]}, ids[which]], st)
                                             if not isinstance(v, Exc)]
                            for st2 in frontier2:
                                for v, s in call(pl, 'decrypt_data', [{'rows': [row] * count}, ids[which]], st2):
                                    judge(rep, 'statement %d of three' % (which + 1), v, s, heads, rows, db, count)
    # NULL
    for k, (w, heads, rows) in enumerate(direct):
        pl.json = SEQ[k]
        for v, s in call(pl, 'encrypt_sql2', [DB, Sym('sql', 'str')], st0.copy()):
            if isinstance(v, Exc):
                continue
            for nul in range(w):
                row = [None if i == nul else Sym('cell%d' % i, 'str') for i in range(w)]
                for v2, s2 in call(pl, 'decrypt_data', [{'rows': [[None] * w, row]}, ident(v, s)], s):
                    rep.count('decryptions')
                    got = None if isinstance(v2, Exc) else lower(v2, s2)
                    got = got.get('rows') if isinstance(got, dict) else None
                    rep.check(got and len(got) == 2 and all(x is None for x in got[0]) and len(got[1]) == w and
                              all((x is None) == (i == nul) for i, x in enumerate(got[1])), 'NULL', '%r is decrypted to %r' % (
                                  [[None] * w, row], v2 if isinstance(v2, Exc) else got))
    # an id that was never given out
    pl.json = SEQ[0]
    for v, s in call(pl, 'encrypt_sql2', [DB, Sym('sql', 'str')], st0.copy()):
        if not isinstance(v, Exc):
            for v2, s2 in call(pl, 'decrypt_data', [{'rows': [(Sym('cell0', 'str'), Sym('cell1', 'str'))]}, 'another id'], s):
                rep.check(isinstance(v2, Exc) or not dec_terms(lift_const(lower(v2, s2)), []), 'unknown id',
                          'rows are decrypted for an id that was not given out')
