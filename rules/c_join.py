"""Join conditions: two columns are compared on the backend only if equal plaintexts are stored equal, and different
plaintexts different, in the physical columns that are compared."""
from .c_select import *

TYPES = {'int': 'int', 'float': 'float', 'double': 'double', 'char': 'text', 'varchar': 'text'}
CIPHERS = {'int': (('order-preserving', 'symmetric'), ('order-preserving', 'symmetric', 'arithmetic', 'sm4')),
           'varchar': (('symmetric', 'fuzzy'), ('symmetric',)), 'char': (('symmetric',), ('symmetric', 'sm4'))}


def schema_j():
    """three tables whose columns cover plaintext and every type, set of ciphers and one of two keys"""
    m = {DB: {}}
    for t, phys in (('t', 'PHYS_T'), ('s', 'PHYS_S'), ('u', 'PHYS_U')):
        cols = {}
        for typ in TYPES:
            cols['p_' + typ] = column('p_' + typ, typ, True, prefix=t + '_')
            for n, ciphers in enumerate(CIPHERS.get(typ, (('order-preserving', 'symmetric'),))):
                for k in 'AB':
                    name = '%s%d%s' % (typ, n, k)
                    # two keys alike but for the case of one letter in the middle
                    over = {'key': 'k' * 40 + {'A': 'a', 'B': 'A'}[k] + 'k' * 40}
                    if 'arithmetic' in ciphers:
                        over['homomorphic_key'] = [3, 5]
                    if 'sm4' in ciphers:
                        over['sm4_key'] = 's' * 40 + {'A': 'a', 'B': 'A'}[k] + 's' * 40
                    cols[name] = column(name, typ, ciphers=ciphers, prefix=t + '_', **over)
        m[DB][t] = {'anonymous': phys, 'columns': cols, 'comment': None}
    return m


def key_of(ci, label):
    return ci.get('sm4_key') if label == 'sm4' else ci['key']


def equal_stored(a, la, b, lb):
    """are equal values of the two physical columns equal on the backend, and only those? -> None or why not"""
    if a['plaintext'] != b['plaintext']:
        return 'a plain and an encrypted column'
    if a['plaintext']:
        return None
    if la != lb:
        return 'the %s and the %s column' % (la, lb)
    if la not in ('symmetric', 'order-preserving'):
        return 'columns encrypted with the %s cipher, which does not show equality of values' % la
    if TYPES[a['type']] != TYPES[b['type']]:
        return 'values stored in the encodings of %s and of %s' % (a['type'], b['type'])
    if key_of(a, la) != key_of(b, lb):
        return 'ciphertexts of different keys'
    return None


def forms(pair, other, plain):
    """(tag, from, where) of statements comparing the columns of `pair`; `other` is an allowed comparison"""
    eq = {'eq': list(pair)}
    for j in ('join', 'inner join', 'left join', 'right join'):
        yield j, ['t', {j: 's', 'on': eq}], None
    yield 'join, other order', ['s', {'join': 't', 'on': eq}], None
    yield 'WHERE', ['t', 's'], eq
    if not other:
        return
    for tag, c in (('first of AND', {'and': [eq, other]}), ('second of AND', {'and': [other, eq]}),
                   ('OR among three', {'and': [other, {'or': [other, eq]}, other]}),
                   ('three of OR', {'or': [other, {'and': [eq, other]}, other]}),
                   ('third of AND', {'and': [other, other, eq]}), ('OR inside AND', {'and': [other, {'or': [other, eq]}]}),
                   ('OR', {'or': [eq, other]})):
        yield 'ON, ' + tag, ['t', {'join': 's', 'on': c}], None
        yield 'WHERE, ' + tag, ['t', 's'], c
    yield 'first of three tables', ['t', {'join': 's', 'on': eq}, {'join': 'u', 'on': {'eq': ['t.' + plain, 'u.' + plain]}}], None
    yield 'second of three tables', ['u', {'join': 's', 'on': {'eq': ['u.' + plain, 's.' + plain]}}, {'left join': 't', 'on': eq}], None


def comparisons(x):
    """every comparison of two columns in a condition"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ('and', 'or', 'not'):
                yield from comparisons(v)
            elif isinstance(v, (list, tuple)) and len(v) == 2 and all(isinstance(w, str) for w in v):
                yield k, v
            else:
                yield k, None
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from comparisons(y)


def conditions_of(cap):
    for x in cap.get('from') if isinstance(cap.get('from'), list) else []:
        if isinstance(x, dict) and 'on' in x:
            yield x['on']
    if 'where' in cap:
        yield cap['where']


def check_C16(project, rep):
    meta = schema_j()
    gw = Gateway(project, meta)
    phys = physical(meta)
    cols = {n: meta[DB][n]['columns'] for n in 'tsu'}
    names = list(cols['t'])
    anon = {v: k for k, v in PHYS_TABLES.items()}
    must = lambda a, b: a['plaintext'] and b['plaintext'] or (
        not a['plaintext'] and not b['plaintext'] and a['type'] == b['type'] and a['key'] == b['key'])
    for i, a in enumerate(names):
        for b in names:
            ca, cb = cols['t'][a], cols['s'][b]
            wide = rep.tier == 'thorough' or a.startswith('varchar0') and b.startswith(('varchar', 'p_v', 'char')) or a == b
            for swap in (False, True):
                pair = ('s.' + b, 't.' + a) if swap else ('t.' + a, 's.' + b)
                for tag, fr, where in forms(pair, {'eq': ['t.p_int', 's.p_int']} if wide else None, 'p_int'):
                    if not wide and swap != (tag == 'join, other order'):
                        continue
                    sel = [{'value': 't.p_int'}, {'value': 's.p_int'}]
                    js = {'select': sel, 'from': fr}
                    if where is not None:
                        js['where'] = where
                    n = len(gw.captured)
                    gw.rewrite(js)
                    rep.count('join conditions')
                    caps = gw.captured[n:]
                    what = '%s: %s %s with %s %s' % (tag, 'plain' if ca['plaintext'] else 'encrypted', ca['type'],
                                                     'plain' if cb['plaintext'] else 'encrypted', cb['type'])
                    if ca['plaintext'] == cb['plaintext'] is False:
                        what += ' of %s key' % ('one' if ca['key'] == cb['key'] else 'another')
                    rep.check(caps or not must(ca, cb), what, 'the comparison of %s = %s is refused' % pair)
                    for cap in caps:
                        rep.count('accepted')
                        got = [c for x in conditions_of(cap) for c in comparisons(x)]
                        asked = [c for x in conditions_of(js) for c in comparisons(x)]
                        seen = []
                        for op, sides in got:
                            rep.count('comparisons')
                            r = []
                            for w in sides or ():
                                q, _, name = w.rpartition('.')
                                t = PHYS_TABLES.get(q)
                                if name in phys:
                                    pt, c, label = phys[name]
                                else:
                                    pt, c, label = t, name, 'plaintext'
                                if t is None or pt != t or c not in cols[t] or (label == 'plaintext') != cols[t][c]['plaintext']:
                                    r = None
                                    break
                                r.append((t, c, label))
                            if not rep.check(op == 'eq' and r, what, 'the condition sent has %s %r' % (op, sides)):
                                continue
                            (t1, c1, l1), (t2, c2, l2) = r
                            seen.append((op, ['%s.%s' % (t1, c1), '%s.%s' % (t2, c2)]))
                            bad = equal_stored(cols[t1][c1], l1, cols[t2][c2], l2)
                            rep.check(bad is None, what, '%r compares %s: equal values never match, or different ones do' % (
                                sides, bad), '%s: %s = %s' % (what, c1, c2))
                        rep.check([(o, sorted(s)) for o, s in seen] == [(o, sorted(s or ())) for o, s in asked], what,
                                  'the conditions %r are sent as %r' % (asked, seen))
                        a1, b1 = [list(conditions_of(x)) for x in (js, back(cap, phys))]
                        rep.check(shape(a1) == shape(b1), what, 'the condition %r is sent as %r' % (a1, b1))
    rep.need('accepted', 60)
    rep.need('join conditions', 300)


def shape(x):
    """conditions with the sides of = in one order"""
    if isinstance(x, dict):
        return {k: sorted(v) if k == 'eq' and all(isinstance(w, str) for w in v) else shape(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [shape(v) for v in x]
    return x
