from .common import *


def statements(meta):
    """(tag, json, {column: symbol}) for the INSERT forms of the grammar"""
    cols = meta[DB]['t']['columns']
    enc = [c for c, i in cols.items() if not i['plaintext']]
    for c in cols:
        typ = cols[c]['type']
        for tag, js, sym in value_shapes(typ, 'x:' + c):
            for other, pos in (('pv', 'first'), ('pi', 'last'), (None, 'alone')):
                if other == c:
                    continue
                if other is None:
                    yield ('one column, %s %s' % (label_of(cols[c]), typ),
                           {'columns': c, 'query': {'select': {'value': js}}, 'insert': 't'}, {c: sym})
                    continue
                ot, ojs, osym = value_shapes(cols[other]['type'], 'x:' + other)[0]
                pair = [(c, js), (other, ojs)] if pos == 'first' else [(other, ojs), (c, js)]
                yield ('single row, %s %s' % (label_of(cols[c]), typ),
                       {'columns': [p[0] for p in pair], 'query': {'select': [{'value': p[1]} for p in pair]},
                        'insert': 't'}, {c: sym, other: osym})
    # every column, declaration order and reversed
    for order in (list(cols), list(cols)[::-1]):
        syms = {c: value_shapes(cols[c]['type'], 'x:' + c)[0] for c in order}
        yield ('single row, all columns', {'columns': order, 'query': {'select': [{'value': syms[c][1]} for c in order]},
                                           'insert': 't'}, {c: syms[c][2] for c in order})
        # several rows: the parser turns them into row dictionaries
        o2 = [c for c in order if c in ('pv', 'i', 'v')]
        rows, sy = [], {}
        for r in range(2):
            row = {}
            for c in o2:
                s = Sym('x%d:%s' % (r, c), {'int': 'int', 'varchar': 'str'}[cols[c]['type']])
                row[c] = s
                sy.setdefault(c, []).append(s)
            rows.append(row)
        yield ('several rows', {'values': rows, 'insert': 't'}, sy)
    # no column list
    yield ('no column list', {'query': {'select': [{'value': value_shapes(cols[c]['type'], 'x:' + c)[0][1]}
                                                   for c in cols]}, 'insert': 't'},
           {c: value_shapes(cols[c]['type'], 'x:' + c)[0][2] for c in cols})


def mismatched(meta):
    """(tag, json): more or fewer values than columns - one of them would be lost, or moved to another column"""
    cols = meta[DB]['t']['columns']
    for c in cols:
        v = [{'value': value_shapes(cols[c]['type'], 'x:' + c)[0][1]}]
        other = [{'value': Sym('x:more', 'int')}]
        for tag, names, sel in (('a value more than columns', [c], v + other),
                                ('two values more than columns', [c], v + other + other),
                                ('a value more than columns', ['pi', c], other + v + other),
                                ('a column more than values', [c, 'pi'], v), ('a column more than values', ['pi', c], v)):
            if len(set(names)) == len(names):
                yield '%s, %s' % (tag, label_of(cols[c])), {'columns': names, 'query': {'select': sel}, 'insert': 't'}


def label_of(ci):
    return 'plaintext' if ci['plaintext'] else '+'.join(ci['enc-cols'])


def run(project, rep):
    meta = schema()
    gw = Gateway(project, meta)
    for tag, js, syms in statements(meta):
        n = len(gw.captured)
        outs = gw.rewrite(js)
        caps = gw.captured[n:]
        rep.count('statement_shapes')
        rep.count('paths', len(outs))
        yield gw, meta, tag, js, syms, outs, caps


def check_C01(project, rep):
    meta = schema()
    accepted = 0
    for gw, meta, tag, js, syms, outs, caps in run(project, rep):
        names = {}
        for c, s in syms.items():
            for x in (s if isinstance(s, list) else [s]):
                names[x.name] = c
        accepted += bool(caps)
        for cap in caps:
            for name, inside in occurrences(cap):
                if name.startswith('opaque:'):
                    raise AnalysisError('captured statement not fully modelled: ' + name)
                c = names.get(name)
                if c is None or meta[DB]['t']['columns'][c]['plaintext']:
                    continue
                rep.count('value_occurrences')
                if inside is None:
                    rep.bad('INSERT %s: plaintext' % tag, 'the value of encrypted column %s is part of the statement sent '
                                                          'to the backend outside any encryption: %r' % (c, cap))
                    continue
                keys = syms_in(inside.args[1])
                allowed = {k for l in meta[DB]['t']['columns'][c]['enc-cols'] for k in keyset('t', c, l)}
                rep.check(bool(keys) and keys <= allowed, 'INSERT %s: key' % tag,
                          'value of %s is encrypted with %r, keyed by %s' % (c, inside.args[0], sorted(keys)),
                          '%s: %s only inside %r keyed by %s' % (tag, name, inside.args[0], sorted(keys)))
    shaped_rows(project, rep)
    rep.count('accepted_statement_shapes', accepted)
    rep.need('accepted_statement_shapes', 15)
    rep.need('value_occurrences', 60)


def shaped_rows(project, rep):
    """rows of an INSERT of several rows, with the shapes a value has elsewhere: whatever is sent, is sent encrypted"""
    meta = schema()
    gw = Gateway(project, meta)
    for c, ci in meta[DB]['t']['columns'].items():
        if ci['plaintext']:
            continue
        for kind in ('str', 'int'):
            x = Sym('x:' + c, kind)
            for tag, v in (('a literal', {'literal': x}), ('a negated value', {'neg': x}), ('a function', {'upper': {'literal': x}}),
                           ('a list', {'literal': [x, x]}), ('a value', {'value': x})):
                n = len(gw.captured)
                gw.rewrite({'values': [{'pi': 7, c: v}, {'pi': 8, c: v}], 'insert': 't'})
                rep.count('shaped_rows')
                for cap in gw.captured[n:]:
                    out = [name for name, inside in occurrences(cap) if inside is None and name == x.name]
                    rep.check(not out, 'INSERT rows of %s, %s: plaintext' % (tag, label_of(ci)),
                              'the value of encrypted column %s is sent outside any encryption: %r' % (c, cap))
        for fn in ('upper', 'concat', 'coalesce', 'add', 'cast', 'if', 'substr'):
            for arg in (c, 't.' + c):
                n = len(gw.captured)
                e = {fn: [arg, {'literal': 'x'}]}
                gw.rewrite({'columns': ['pv', 'pi'], 'query': {'select': [{'value': e}, {'value': 7}]}, 'insert': 't'})
                gw.rewrite({'update': 't', 'set': {'pv': e, 'pi': 7}})
                rep.count('shaped_rows')
                rep.check(len(gw.captured) == n, 'plaintext column from %s() of an encrypted one' % fn,
                          'the logical name of %s is sent: %r' % (c, gw.captured[n:]))
    rep.need('shaped_rows', 100)


def row_lists(gw, rep, meta):
    """rows given as lists of values in table order, and rows naming different columns: every cell is the value written
    for it"""
    cols = meta[DB]['t']['columns']
    phys = physical(meta)

    def cells(key, cap, want):
        got = cap.get('values')
        if not rep.check(isinstance(got, list) and len(got) == len(want), key, '%d rows are sent as %r' % (len(want), cap)):
            return
        for row, w in zip(got, want):
            names = sorted(p for c in w for p in ([c] if cols[c]['plaintext'] else cols[c]['enc-cols'].values()))
            if not rep.check(isinstance(row, dict) and sorted(map(str, row)) == names, key + ': columns',
                             'a row of %s is sent as %r' % (list(w), row)):
                continue
            for name, val in row.items():
                rep.count('cells')
                c = phys[name][1] if name in phys else name
                if cols[c]['plaintext']:
                    rep.check(unwrap(val) == w[c], key + ': plaintext cell', '%s is given %r' % (c, val))
                else:
                    bad = enc_ok(gw, unwrap(val), 't', c, phys[name][2], w[c], meta)
                    rep.check(bad is None, key + ': %s cell' % phys[name][2], 'the %s column of %s %s' % (phys[name][2], c, bad))

    def sym(c, r):
        return Sym('x%d:%s' % (r, c), {'int': 'int', 'float': 'float', 'double': 'float'}.get(cols[c]['type'], 'str'))
    rows = [{c: sym(c, r) for c in cols} for r in range(3)]
    different = [{c: sym(c, r) for c in cs} for r, cs in enumerate((['pi', 'v'], ['pi', 'v', 'i'], ['v', 'pi'], ['i', 'pi', 'f']))]
    for key, js, want in (('INSERT of row lists', [list(r.values()) for r in rows], rows),
                          ('INSERT of rows naming different columns', different, different)):
        n = len(gw.captured)
        gw.rewrite({'values': js, 'insert': 't'})
        for cap in gw.captured[n:]:
            cells(key, cap, want)


def check_C02(project, rep):
    phys = physical()
    for gw, meta, tag, js, syms, outs, caps in run(project, rep):
        cols = meta[DB]['t']['columns']
        supplied = js.get('columns')
        supplied = [supplied] if isinstance(supplied, str) else supplied
        for cap in caps:
            if 'values' in cap and isinstance(cap['values'], list):
                rows = [list(r.items()) for r in cap['values'] if isinstance(r, dict)]
                nrows = len(js.get('values', [1]))
                want = list(js['values'][0]) if 'values' in js else supplied
                if not rep.check(len(rows) == nrows, 'INSERT %s: rows' % tag, '%d rows become %d' % (nrows, len(rows))):
                    continue
            else:
                c = cap.get('columns')
                if c is None:
                    rep.bad('INSERT %s: target columns' % tag, 'the statement is sent without naming its physical columns')
                    continue
                c = [c] if isinstance(c, str) else c
                sel = cap['query']['select'] if isinstance(cap.get('query'), dict) else None
                sel = [sel] if isinstance(sel, dict) else sel
                if not isinstance(sel, list):
                    rep.bad('INSERT %s: values' % tag, 'no value list in %r' % (cap,))
                    continue
                if not rep.check(len(c) == len(sel), 'INSERT %s: length' % tag,
                                 '%d columns but %d values: %r' % (len(c), len(sel), cap)):
                    continue
                rows = [list(zip(c, sel))]
                want = supplied
            if want is None:
                continue
            for ri, row in enumerate(rows):
                seen = [x[0] for x in row]
                expect = [p for c in want for p in ([c] if cols[c]['plaintext'] else cols[c]['enc-cols'].values())]
                if not rep.check(sorted(map(str, seen)) == sorted(expect), 'INSERT %s: columns' % tag,
                                 'columns written: %s, declared for the supplied columns: %s' % (seen, expect)):
                    continue
                for name, val in row:
                    rep.count('cells')
                    s = syms
                    if name in phys:
                        _, c, label = phys[name]
                        sym = syms[c][ri] if isinstance(syms[c], list) else syms[c]
                        bad = enc_ok(gw, unwrap(val), 't', c, label, sym, meta)
                        rep.check(bad is None, 'INSERT %s: %s cell' % (tag, label),
                                  'the %s column of %s %s' % (label, c, bad), '%s <- %r' % (name, unwrap(val)))
                    else:
                        sym = syms[name][ri] if isinstance(syms[name], list) else syms[name]
                        rep.check(unwrap(val) == sym, 'INSERT %s: plaintext cell' % tag,
                                  'plaintext column %s is given %r' % (name, val))
    meta = schema()
    gw = Gateway(project, meta)
    for tag, js in mismatched(meta):
        rep.count('mismatched')
        n = len(gw.captured)
        gw.rewrite(js)
        for cap in gw.captured[n:]:
            c, sel = cap.get('columns'), cap.get('query', {}).get('select') if isinstance(cap.get('query'), dict) else None
            c = [c] if isinstance(c, str) else c
            sel = [sel] if isinstance(sel, dict) else sel
            # MySQL refuses a statement with as many values too many or too few
            rep.check(isinstance(c, list) and isinstance(sel, list) and len(c) != len(sel), 'INSERT %s' % tag,
                      'is sent as a row of matching length: a value is lost or made up: %r' % (cap,))
    rep.need('mismatched', 20)
    row_lists(gw, rep, meta)
    same_constants(gw, rep, meta, 'INSERT', lambda c, x: {
        'columns': ['pi', c], 'query': {'select': [{'value': 7}, {'value': x}]}, 'insert': 't'})
    same_constants(gw, rep, meta, 'INSERT of several rows', lambda c, x: {
        'values': [{'pi': 7, c: unwrap(x)}, {'pi': 8, c: 1}], 'insert': 't'})
    for c, ci in meta[DB]['t']['columns'].items():
        if ci['plaintext']:
            continue
        sym = Sym('x', 'int')
        for tag, value in (('a column', 'pi'), ('DEFAULT', 'default'), ('a column of its own name', c),
                           ('arithmetic', {'add': [sym, 1]}), ('a function', {'upper': {'literal': 'x'}}),
                           ('several strings', {'literal': ['x', 'y']}),
                           ('a subquery', {'select': {'value': 'pi'}, 'from': 's'})):
            n = len(gw.captured)
            gw.rewrite({'columns': ['pi', c], 'query': {'select': [{'value': 7}, {'value': value}]}, 'insert': 't'})
            rep.count('expressions')
            rep.check(len(gw.captured) == n, 'INSERT of %s, %s' % (tag, label_of(ci)),
                      'the expression itself is stored instead of its value: %r' % (gw.captured[n:],))
        n = len(gw.captured)
        gw.rewrite({'columns': ['pi', c], 'query': {'select': [{'value': 7}, {'value': {'null': {}}}]}, 'insert': 't'})
        for cap in gw.captured[n:]:
            sel = cap['query']['select']
            rep.count('expressions')
            rep.check(all(unwrap(x) == {'null': {}} for x in sel[1:]) and len(sel) == 1 + len(ci['enc-cols']),
                      'INSERT of NULL, %s' % label_of(ci), 'NULL is sent as %r' % (cap,))
    rep.need('expressions', 40)
    rep.need('cells', 60)
