"""E08: what requests running at the same time share (connections to the metadata store, modules, classes, metadata)."""
from .http import *


def watched(st):
    return frozenset(o for o, x in st.heap.items() if not isinstance(x, HEnv))


def own_locks(e):
    return frozenset(x for x in e.locks if x != EXECUTOR)


def content(o):
    for a in ('ns', 'attrs', 'items'):
        if hasattr(o, a):
            x = getattr(o, a)
            return dict(x) if isinstance(x, dict) else {'items': x, 'tail': o.tail}
    return {}


def difference(e):
    """{key: is it new} of a change of a shared object"""
    old, new = content(e.kw['old']), content(e.kw['new'])
    return {k: k not in old and isinstance(e.kw['old'], HDict) for k in set(old) | set(new)
            if k not in old or k not in new or old[k] != new[k]}


def place(e, st):
    """name of the shared object"""
    o = e.kw['new']
    if isinstance(o, HMod):
        return 'module ' + o.name
    if isinstance(o, HCls):
        return 'class ' + o.name
    oid = e.recv.oid
    for r, x in st.heap.items():
        if isinstance(x, (HMod, HCls)):
            for k, v in x.ns.items():
                if isinstance(v, Ref) and v.oid == oid:
                    return '%s.%s' % (x.name, k)
    if isinstance(o, HInst):
        c = st.heap.get(o.cls.oid) if isinstance(o.cls, Ref) else None
        return 'object of ' + (c.name if c is not None else repr(o.cls))
    for r, x in st.heap.items():
        if isinstance(x, HInst):
            for k, v in x.attrs.items():
                if isinstance(v, Ref) and v.oid == oid:
                    return 'object.' + k
        if isinstance(x, HDict):
            for k, v in x.items.items():
                if isinstance(v, Ref) and v.oid == oid:
                    return '%s[%s]' % (name_of(x, st) or 'a shared dict', k.v if isinstance(k, K) else '...')
    return 'a shared object'


def name_of(obj, st):
    for x in st.heap.values():
        if isinstance(x, (HMod, HCls)):
            for k, v in x.ns.items():
                if isinstance(v, Ref) and st.heap.get(v.oid) is obj:
                    return '%s.%s' % (x.name, k)
    return None


def shared_connections(st):
    """{connection term: modules that keep it}"""
    res = {}
    for o in list(st.heap.values()):
        ns, where = None, None
        if isinstance(o, HMod):
            ns, where = o.ns, o.name
        elif isinstance(o, HCls):
            ns, where = o.ns, o.mod
        elif isinstance(o, HInst):
            c = st.heap.get(o.cls.oid) if isinstance(o.cls, Ref) else None
            ns, where = o.attrs, c.mod if c is not None else None
        for v in (ns or {}).values():
            if isinstance(v, T) and 'config' in syms_in(v) and store_like(v):
                res.setdefault(v, set()).add(where)
    return res


def store_like(v):
    return v.op == 'call' and isinstance(v.args[0], K) and str(v.args[0].v).split('.')[-1] == 'connect'


class Locks:
    """locks held at every use of a shared thing"""

    def __init__(self, rep):
        self.rep, self.held, self.sites = rep, {}, {}

    def use(self, what, e, tag):
        self.rep.count('uses of shared state')
        l = own_locks(e)
        self.held[what] = self.held[what] & l if what in self.held else l
        self.sites.setdefault(what, []).append((tag, e, l))

    def decide(self):
        for what, common in sorted(self.held.items()):
            sites = self.sites[what]
            free = [(t, e) for t, e, l in sites if not l]
            for t, e in free:
                self.rep.check(False, '%s: %s' % (what, where_is(e)), '%s uses %s in %s without a lock' % (t, what, where_is(e)))
            if not free:
                self.rep.check(bool(common), what, '%s is used under different locks: %s' % (what, sorted({
                    '%s in %s' % (sorted(map(repr, l)), where_is(e)) for t, e, l in sites})), '%s: one lock' % what)


def where_is(e):
    fn = e.fn
    return getattr(fn, 'name', None) or getattr(getattr(fn, 'node', None), 'name', None) or 'module level'


def uses(locks, tag, s, before):
    """store calls on connections that other requests use too, and changes of shared objects"""
    conns = dict(before)
    for c, w in shared_connections(s).items():
        conns.setdefault(c, set()).update(w)
    for e in s.trace:
        if e.kind in ('call', 'raised') and side(e) == 'store' or e.kind == 'fetch':
            c = store_conn(e.recv)
            if c in conns:
                mods = conns[c] - {None}
                locks.use('the store connection of ' + ' and '.join(sorted(mods)), e, tag)
        elif e.kind == 'shared':
            d = difference(e)
            if d and not all(d.values()):
                p = place(e, s)
                names = sorted(k if isinstance(k, str) else repr(k) for k in d)
                locks.use(p if len(names) > 3 else '%s %s' % (p, names) if p.startswith(('module', 'class')) else p, e, tag)


def fetch_hook(h):
    inner = h._fetchall

    def f(I, a, k, st, n, fr):
        I.event(st, Event('fetch', 'fetchall', a[0] if a else NONE, (), {}, n, st.locks, None, fr and fr.fn))
        return inner(I, a, k, st, n, fr)
    h.I.intr['.fetchall'] = f
    for m in ('fetchone', 'fetchmany'):
        h.I.intr['.' + m] = lambda I, a, k, st, n, fr, m=m: I.event(st, Event(
            'fetch', m, a[0] if a else NONE, (), {}, n, st.locks, None, fr and fr.fn)) and None


def twice(interp, locks, tag, go, start):
    """two requests in a row: what the first one leaves is shared with the second"""
    st = start.copy()
    st.trace = ()
    st.heap.watch = watched(st)
    outs = go(st)
    n = 0
    # earlier requests have put any number of entries where these put one
    interp.growing = frozenset(e.recv.oid for v, s in outs for e in s.trace if e.kind == 'shared' and isinstance(e.recv, Ref)
                               and difference(e) and all(difference(e).values()))
    for v, s in outs:
        uses(locks, tag, s, shared_connections(st))
        if isinstance(v, Exc) or n > 3:
            continue
        n += 1
        s2 = s.copy()
        s2.trace = ()
        s2.heap.watch = watched(s2)
        before = shared_connections(s2)
        for v3, s3 in go(s2):
            uses(locks, tag + ' again', s3, before)
    interp.growing = frozenset()


def check_E08(project, rep):
    # the service
    h = Http(project)
    fetch_hook(h)
    for start in h.start():
        rep.count('configurations')
        locks = Locks(rep)
        rep.check(bool(shared_connections(start)), 'store', 'no connection of the metadata store found after the start')
        for tag, path, body, needed, kw in requests():
            a = dict(kw)
            if 'form' in a:
                a['form'] = dict(a['form'], query=SQL)
            twice(h.I, locks, tag, lambda st: h.request(path, body, st=st, **a), start)
        twice(h.I, locks, '/jdbc_query/schema', lambda st: h.request('/jdbc_query/schema/7', {}, method='get', rows=[ROW],
                                                                st=st), start)
        locks.decide()
    # the statements
    pl = Pipeline(project)
    fetch_hook(pl)
    for start in pl.starts(CTX):
        rep.count('configurations')
        locks = Locks(rep)
        for q, js, enc in statements():
            count = [0]

            def go(st):
                count[0] += 1
                j = named('n%d' % count[0], js) if q == 'CREATE' else js
                return from_state(pl, st, j, q, enc, rows=[(Sym('a', 'str'), Sym('b', 'str'))])
            twice(pl.I, locks, q, go, start)
        for f in ('encrypt_sql1', 'encrypt_sql2'):
            def conv(st):
                pl.json, pl.qtype, pl.rows, pl.alter = {'select': [{'value': 'v'}], 'from': 't'}, 'SELECT', [], None
                return pl.I.call(pl.I.mod_get(CTX, f, st), [K(DB), Sym('sql', 'str')], {}, st, None, None)
            twice(pl.I, locks, f, conv, start)
        locks.decide()
    # the first use of the metadata
    mod = 'scheduler.schema.metadata'
    raw = Pipeline(project)
    fetch_hook(raw)
    for st in raw.I.start(mod):
        locks = Locks(rep)
        d = raw.I.mod_get(mod, 'Delta', st)
        st.trace = ()
        st.heap.watch = watched(st)
        for v, s in raw.I.call(d, [], {}, st.copy(), None, None):
            rep.count('first uses')
            uses(locks, 'first use of the metadata', s, shared_connections(st))
        locks.decide()
    race(project, rep)
    rep.need('configurations', 4)
    rep.need('uses of shared state', 60)
    rep.need('first uses', 2)
    rep.need('races', 1)


def race(project, rep):
    """another request creates the table while this one waits for a lock"""
    js, enc = named('n', CREATE), ENCRYPTED
    other = {'anonymous': 'OTHER', 'columns': {}, 'comment': None}
    k = 0
    while True:
        pl = Pipeline(project)
        hit = [0]
        plain = pl.I.event

        def event(st, e):
            if waits(e) and st.tags.get('race', -1) < k:
                n = st.tags.get('race', -1) + 1
                st.tags['race'] = n
                if n == k:
                    hit[0] += 1
                    d = pl.I.mod_get('scheduler.schema.metadata', 'Delta', st)
                    m = st.heap[d.oid].ns.get('meta')
                    db = dict(st.heap[m.oid].items)[K(DB)]
                    o = st.heap[db.oid]
                    st.heap[db.oid] = HDict(dict(o.items, **{}) | {K('n'): lift(other, st)}, o.rest, o.factory)
            return plain(st, e)
        start = pl.states()[0]
        start.tags['race'] = -1
        pl.I.event = event
        outs = from_state(pl, start, js, 'CREATE', enc)
        pl.I.event = plain
        if not hit[0]:
            break
        for v, s in outs:
            if s.tags.get('race') != k:
                continue
            rep.count('races')
            key = 'CREATE while another request creates the table (lock %d)' % (k + 1)
            late = [e for e in store(s, 'execute', 'executemany') if verb_of(e) in WRITES]
            first = next((i for i, e in enumerate(s.trace) if e.kind == 'enter'), 0)
            done = executes(s)
            m = memory(pl, s)[DB].get('n') or {}
            if wrote_before(s, k):
                continue
            rep.check(isinstance(v, Exc) and not done, key, 'both requests create the table: the rows of one are lost',
                      '%s: one of them is refused' % key)
            rep.check(not late, key + ': store', 'the rows of both are stored')
            rep.check(m.get('anonymous') == 'OTHER', key + ': memory', 'the metadata of the other request is replaced or removed')
        k += 1
        if k > 40:
            break


def wrote_before(s, k):
    """had this request already stored its table when it waited for the k-th lock?"""
    n = -1
    for e in s.trace:
        if waits(e):
            n += 1
            if n == k:
                return False
        if e.kind == 'call' and side(e) == 'store' and e.name in ('execute', 'executemany') and verb_of(e) in WRITES:
            return True
    return False


def waits(e):
    """does this take a lock the request does not hold already?"""
    r = repr(e.recv)
    return (e.kind == 'enter' or e.kind == 'call' and e.name == 'acquire') and e.recv not in e.locks and (
        'Lock' in r or 'Condition' in r or 'Semaphore' in r)
