"""The life of one request: which statements run, on which session, what is committed, what happens on a failure."""
from .pipeline import *

EXCV = T('exc', (K('?'), K('library failure')))
CREATE = {'create table': {'replace': False, 'name': 'n', 'columns': [
    {'name': 'id', 'type': {'int': {}}, 'nullable': False, 'primary_key': True},
    {'name': 'v', 'type': {'varchar': 20}}, {'name': 'p', 'type': {'varchar': 9}}]}}
ENCRYPTED = {'id': {'fuzzy': False, 'key': Sym('kid', 'str')}, 'v': {'fuzzy': True, 'key': Sym('kv', 'str')}}


def lit(x):
    return {'literal': Sym(x, 'str')}


def statements():
    """(kind, parser tree, encrypted columns) of one statement of every supported kind"""
    w = {'eq': ['v', lit('w')]}
    return [
        ('SELECT', {'select': [{'value': 'v'}, {'value': 'pv'}], 'from': 't', 'where': w}, None),
        ('SELECT', {'select': '*', 'from': 's'}, None),
        ('INSERT', {'columns': ['v', 'pv'], 'query': {'select': [{'value': lit('x')}, {'value': lit('y')}]},
                    'insert': 't'}, None),
        ('INSERT', {'values': [{'v': lit('x'), 'i': Sym('n', 'int')}], 'insert': 't'}, None),
        ('UPDATE', {'set': {'v': lit('x')}, 'where': w, 'update': 't'}, None),
        ('DELETE', {'delete': 't', 'where': w}, None),
        ('DROP', {'drop': {'table': 't'}}, None),
        ('CREATE', CREATE, ENCRYPTED),
        ('ALTER', {'alter': 't', 'drop primary key': True}, None),
    ]


def request_names(info=INFO):
    return {v.name for v in info.values() if isinstance(v, Sym) and v.name != 'sql'}


def side(e):
    """'backend' for a call on a session opened with the client's credentials, 'store' for the metadata store"""
    if e.recv == NONE:
        return None
    names = syms_in(e.recv)
    if names & {'host', 'port', 'user', 'password'}:
        return 'backend'
    if 'config' in names:
        return 'store'
    return None


def backend(s, name=None):
    return [e for e in s.trace if e.kind == 'call' and side(e) == 'backend' and (name is None or e.name == name)]


def executes(s):
    return [e for e in s.trace if e.kind in ('call', 'raised') and side(e) == 'backend'
            and e.name in ('execute', 'executemany', 'callproc', 'cmd_query', 'query')]


def store(s, *names):
    return [e for e in s.trace if e.kind == 'call' and side(e) == 'store' and e.name in names]


def memory(pl, s):
    """the metadata dictionary as the rewriter reads it: through the singleton"""
    d = pl.I.mod_get('scheduler.schema.metadata', 'Delta', s)
    s2 = s.copy()
    rs = pl.I.call(d, [], {}, s2, None, None)
    v, s3 = rs[0]
    m, s4 = pl.I.getattr(v, 'meta', s3, None, None)[0]
    return lower(m, s4)


def class_memory(pl, s):
    """the same through the class attribute, which the class methods read"""
    d = pl.I.mod_get('scheduler.schema.metadata', 'Delta', s)
    m, s2 = pl.I.getattr(d, 'meta', s.copy(), None, None)[0]
    return lower(m, s2)


def at(kind, name=None, where=None, raised=EXCV):
    """a may_raise hook failing the calls that match"""
    def hook(I, e, st):
        if (name is None or e.name in name) and (kind is None or side(e) == kind) and (where is None or where(e, st)):
            return raised
        return None
    return hook


def failing(project, who):
    """a pipeline whose statement classifier, SQL parser or formatter raises"""
    pl = Pipeline(project)
    pl.states()

    def boom(I, a, k, st, n, fr):
        return [(Exc(EXCV, n), st)]
    if who == 'parser':
        for n in PARSE:
            pl.I.intr[n] = boom
    elif who == 'formatter':
        pl.I.intr['sql_parsing.format'] = boom
    else:
        inner = pl.I.class_intrinsic

        def cls(I, cref, o, args, kw, st, node, fr):
            if o.name == 'Parser' and o.mod == 'scheduler.compile.parser':
                return [(Exc(EXCV, node), st)]
            return inner(I, cref, o, args, kw, st, node, fr)
        pl.I.class_intrinsic = cls
    return pl


def check_E01(project, rep):
    pl = Pipeline(project)
    qt = pl.I.mod_get('scheduler.compile.keywords_lists', 'QueryType', pl.states()[0])
    ns = pl.states()[0].heap[qt.oid].ns
    members = [k for k, v in ns.items() if k.isupper()]
    supported = {'SELECT', 'INSERT', 'UPDATE', 'DELETE', 'CREATE', 'DROP', 'ALTER'}
    rep.check(supported <= set(members), 'kinds', 'kinds known: %s' % members)
    insert = statements()[2][1]
    for q in [m for m in members if m not in supported] + [None, K('TRUNCATE'), K('UNSUPPORTED'), K('WITH'), K('')]:
        for js in (insert, {'select': {'value': 'pv'}, 'from': 't'}, {'drop': {'table': 't'}}):
            for v, s in pl.invoke(js, q):
                rep.count('unsupported_paths')
                key = 'kind %s' % (q.v if isinstance(q, K) else q)
                rep.check(isinstance(v, Exc), key, 'a statement of kind %s is answered with %r' % (q, v))
                rep.check(not executes(s), key + ': sent', '%r runs for a statement of kind %s' % (executes(s)[:1], q),
                          '%s: refused, nothing sent' % key)
                rep.check(not store(s, 'execute', 'executemany'), key + ': metadata', 'the metadata store is written')
    for q, js, enc in statements():
        ok = [1 for v, s in pl.invoke(js, q, encrypted_cols=enc, rows=[(Sym('a', 'str'), Sym('b', 'str'))])
              if not isinstance(v, Exc) and executes(s)]
        rep.count('supported_kinds')
        rep.check(ok, 'kind %s' % q, 'no %s statement is executed' % q, '%s is executed' % q)
    # an unparsable statement: the classifier or the SQL parser raises
    for who in ('classifier', 'parser'):
        p2 = failing(project, who)
        for v, s in p2.invoke(insert, 'INSERT'):
            rep.count('unsupported_paths')
            rep.check(isinstance(v, Exc) and not executes(s), 'unparsable statement (%s)' % who,
                      'answered %r, executed %r' % (v, executes(s)[:1]))
    # the client's text itself is never what runs
    for q, js, enc in statements():
        for v, s in pl.invoke(js, q, encrypted_cols=enc, rows=[(Sym('a', 'str'), Sym('b', 'str'))]):
            for e in executes(s):
                rep.count('executions')
                rep.check('sql' not in set().union(*[syms_in(a) for a in e.args] or [set()]), '%s: raw text' % q,
                          'the client text is executed: %r' % (e.args,))
    classifier(project, rep)
    rep.need('unsupported_paths', 20)
    rep.need('supported_kinds', 8)
    rep.need('executions', 8)


def classifier(project, rep):
    """the kind of a statement is decided by its first word (two for CREATE and ALTER), everything else is an error"""
    gw = Gateway(project)
    st = gw.I.start('scheduler.compile.parser')[0]
    cls = gw.I.mod_get('scheduler.compile.parser', 'Parser', st)
    want = {('SELECT',): 'SELECT', ('WITH',): 'SELECT', ('INSERT', 'INTO'): 'INSERT', ('UPDATE',): 'UPDATE',
            ('DELETE', 'FROM'): 'DELETE', ('CREATE', 'TABLE'): 'CREATE', ('ALTER', 'TABLE'): 'ALTER',
            ('DROP', 'TABLE'): 'DROP', ('REPLACE', 'INTO'): 'REPLACE', ('TRUNCATE', 'TABLE'): None, ('GRANT',): None,
            ('SET',): None, ('CALL',): None, ('LOAD', 'DATA'): None, ('CREATE', 'USER'): None, ('ALTER', 'USER'): None,
            ('CREATE', 'DATABASE'): None, ('SHOW', 'TABLES'): None, ('RENAME', 'TABLE'): None, ('EXPLAIN',): None,
            ('HANDLER',): None, ('DO',): None, (): None}
    for words, kind in want.items():
        for paren in (False, True) if words == ('SELECT',) else (False,):
            s0 = st.copy()
            toks = []
            names = (['('] if paren else []) + list(words) + (['X'] if words else [])
            for i, w in enumerate(names):
                toks.append(s0.alloc(HInst(Ext('token'), {
                    'is_comment': FALSE, 'is_left_parenthesis': K(w == '('), 'normalized': K(w), 'position': K(i),
                    'value': K(w), 'is_keyword': TRUE})))
            if paren:
                nxt = toks[1]
                s0.heap[toks[0].oid].attrs['find_nearest_token'] = Partial(Ext('nearest'), (), ())
                gw.I.intr['nearest'] = lambda I, a, k, stt, n, fr, nxt=nxt: [(nxt, stt)]
            obj = s0.alloc(HInst(cls, {'_query_type': NONE, '_tokens': s0.list(toks), '_raw_query': Sym('sql', 'str'),
                                       '_query': Sym('sql', 'str'), '_logger': Ext('logger')}))
            for v, s in gw.I.getattr(obj, 'query_type', s0, None, None):
                rep.count('classified')
                if kind is None:
                    rep.check(isinstance(v, Exc), 'classifier: %s' % ' '.join(words), 'is classified as %r' % (v,))
                else:
                    got = lower(v, s) if not isinstance(v, Exc) else v
                    rep.check(repr(kind) in repr(v) or kind in repr(describe(v, s)), 'classifier: %s' % ' '.join(words),
                              'is classified as %r' % (got,), '%s -> %s' % (' '.join(words), kind))
    rep.need('classified', 20)


def describe(v, s):
    if isinstance(v, Ref) and isinstance(s.heap.get(v.oid), HInst):
        return {k: repr(x) for k, x in s.heap[v.oid].attrs.items()}
    return v


def check_E02(project, rep):
    """a failure of the backend is reported, never answered as success; later statements are not executed"""
    for q, js, enc in statements():
        for what, hook in (('execute', at('backend', ('execute', 'executemany'))), ('cursor', at('backend', ('cursor',))),
                           ('fetch', at(None, ('fetchall', 'fetchone', 'fetchmany'),
                                        lambda e, st: e.recv == NONE or side(e) == 'backend')),
                           ('commit', at('backend', ('commit',))), ('connect', at(None, None, is_connect)),
                           ('session', at('backend', ('connection', 'dedicated_connection')))):
            if what == 'fetch' and q != 'SELECT':
                continue
            if what == 'commit' and q in ('SELECT', 'DROP'):
                continue
            pl = Pipeline(project, may_raise=None)
            pl.states()
            pl.I.may_raise = hook
            n = 0
            for v, s in pl.invoke(js, q, encrypted_cols=enc, rows=[(Sym('a', 'str'), Sym('b', 'str'))]):
                raised = [i for i, e in enumerate(s.trace) if e.kind == 'raised']
                if not raised:
                    continue
                n += 1
                rep.count('failures')
                key = '%s: failing %s' % (q, what)
                rep.check(isinstance(v, Exc), key, 'the failure is answered as success: %r' % (v,),
                          '%s: the failure is reported' % key)
                after = [e for e in s.trace[raised[0] + 1:] if e.kind == 'call' and side(e) == 'backend'
                         and e.name in ('execute', 'executemany', 'commit')]
                rep.check(not after, key + ': continues', 'after the failure the gateway still does %r' % (after[:1],))
            rep.check(n > 0, '%s: failing %s' % (q, what), 'no %s is done for %s' % (what, q))
    # bulk load
    rep.need('failures', 30)


def is_connect(e, st):
    return e.recv == NONE and bool({'host', 'user', 'password'} & set().union(
        *([syms_in(a) for a in e.args] + [syms_in(a) for a in e.kw.values()] + [set()]))) and \
        (e.name.startswith('dbutils.') or e.name.startswith('mysql.'))


def check_E03(project, rep):
    """acknowledged writes are committed, on the session they ran on, after they ran"""
    pl = Pipeline(project)
    for q, js, enc in statements():
        if q in ('SELECT',):
            continue
        for v, s in pl.invoke(js, q, encrypted_cols=enc):
            if isinstance(v, Exc):
                continue
            ex = [i for i, e in enumerate(s.trace) if e in executes(s)]
            rep.count('acknowledged')
            if not rep.check(len(ex) >= 1, '%s: executed' % q, 'acknowledged but never executed'):
                continue
            if q in ('DROP',):
                rep.ok('DROP commits implicitly')
                continue
            last = max(ex)
            con = conn_of(s.trace[last].recv)
            com = [i for i, e in enumerate(s.trace) if e.kind == 'call' and e.name == 'commit' and i > last and e.recv == con]
            done = [i for i, e in enumerate(s.trace) if e.kind == 'call' and e.name in ('close', 'rollback') and e.recv == con]
            rep.check(bool(com), '%s: commit' % q, 'acknowledged without a commit of the session it ran on (%r)' % con,
                      '%s committed before the answer' % q)
            rep.check(not com or not done or min(com) < min(done), '%s: commit order' % q,
                      'the session is given back or rolled back before the commit')
            rep.check(len(ex) == 1, '%s: once' % q, 'the statement runs %d times' % len(ex))
    rep.need('acknowledged', 6)


def conn_of(recv):
    """the session a cursor term belongs to: strip .cursor()"""
    while isinstance(recv, T) and recv.op == 'call' and isinstance(recv.args[0], K) and recv.args[0].v == 'cursor':
        recv = recv.args[1]
    return recv


def sessions(s):
    """events that take a session of the backend"""
    return [e for e in s.trace if e.kind == 'call' and (
        e.name in ('connection', 'dedicated_connection') and side(e) == 'backend' or
        is_connect(e, s) and e.name.endswith('.connect'))]


CREDS = [
    dict(host='h', port=1, db='d', user='u', password='p'),
    dict(host='h2', port=1, db='d', user='u', password='p'),
    dict(host='h', port=2, db='d', user='u', password='p'),
    dict(host='h', port=1, db='d2', user='u', password='p'),
    dict(host='h', port=1, db='d', user='u2', password='p'),
    dict(host='h', port=1, db='d', user='u', password='p2'),
    dict(host='h', port=11, db='d', user='u', password='p'),
    dict(host='h1', port=1, db='d', user='u', password='p'),
    dict(host='h', port=1, db='du', user='', password='p'),
    dict(host='h', port=1, db='d', user='up', password=''),
    dict(host='h', port=1, db='d', user='', password='up'),
    dict(host='h', port='1', db='d', user='u', password='P'),
    dict(host='h:1', port=1, db='d', user='u', password='p'),
    dict(host='h', port=1, db='d', user='u,p', password=''),
    dict(host='h', port=1, db='d', user='U', password='p'),
    dict(host='h', port=1, db='D', user='u', password='p'),
    dict(host='h', port=1, db='d', user='u', password='P'),
    dict(host='h', port=1, db='d', user='u', password=' p'),
    dict(host='h', port=1, db='d', user='u', password='p' * 40),
]


def check_E04(project, rep):
    """a pooled session handed to a request was opened with exactly the credentials of that request"""
    pl = Pipeline(project)
    fields = ('host', 'port', 'db', 'user', 'password')
    # every pair in one process: the second request must not get a session of the first's
    mod = 'scheduler.backend.executors.remote_executor'
    histories = [(a, b) for a in CREDS for b in CREDS]
    histories += [(CREDS[0], b, CREDS[0]) for b in CREDS[1:]] + [(b, CREDS[0], b) for b in CREDS[1:]]
    histories += [(CREDS[0], b, c) for b, c in zip(CREDS[1:], CREDS[2:] + CREDS[1:2])]
    for hist in histories:
            st = pl.states()[0]
            f = pl.I.mod_get(mod, 'RemoteExecutor', st)
            states = [(None, st)]
            for info in hist:
                nxt = []
                for _, s in states:
                    s.trace = ()
                    nxt += [(v, s2) for v, s2 in pl.I.call(f, [lift(dict(info, query=Sym('sql', 'str')), s)], {}, s, None, None)
                            if not isinstance(v, Exc)]
                states = nxt
            if not states:
                rep.bad('connect', 'no executor can be built')
                return
            for v, s in states:
                con = pl.I.getattr(v, 'conn', s, None, None)[0][0]
                rep.count('pairs')
                used = opened_with(con)
                a, b = hist[-2:]
                want = dict(b)
                ok = used is not None and all(used.get(k) == want[k] for k in fields)
                key = 'after %s%s' % (diff_fields(a, b), '' if len(hist) == 2 else ', and one before')
                rep.check(ok, key, 'a request as %s gets a session opened as %s' % (want, used),
                          'request %s after %s: own session' % (b, a))
    rep.need('pairs', 150)


def diff_fields(a, b):
    d = [k for k in a if a[k] != b[k]]
    return 'a request differing in ' + '+'.join(d) if d else 'the same credentials'


NAMES = {'host': 'host', 'port': 'port', 'user': 'user', 'username': 'user', 'password': 'password', 'passwd': 'password',
         'db': 'db', 'database': 'db'}


def opened_with(con):
    """keyword arguments of the innermost opening call of a session term"""
    stack, found = [con], None
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.op == 'call' and x.args[1] == NONE and isinstance(x.args[0], K) and (
                    str(x.args[0].v).startswith(('dbutils.', 'mysql.'))):
                found = {NAMES[k.items[0].v]: k.items[1].v for k in x.args[3].items
                         if k.items[0].v in NAMES and isinstance(k.items[1], K)}
            stack.extend(y for y in x.args if isinstance(y, V))
        elif isinstance(x, Tup):
            stack.extend(x.items)
    return found


def check_E05(project, rep):
    """whatever call fails, the session taken for the request is given back before the request ends"""
    def run(tag, go, pl):
        base = go(pl, None)
        points = {}
        for v, s in base:
            released(rep, tag + ': success', v, s)
            for e in s.trace:
                if e.kind in ('call', 'enc', 'dec') and not is_log(e) and e.kind == 'call':
                    points.setdefault((e.name, side(e), id(e.node)), e)
        for (name, sd, nid), ev in points.items():
            if name in ('close',):
                continue
            pl.I.may_raise = lambda I, e, st, name=name, nid=nid: EXCV if e.name == name and id(e.node) == nid else None
            for v, s in go(pl, None):
                if any(e.kind == 'raised' for e in s.trace):
                    rep.count('failures')
                    released(rep, '%s: failing %s' % (tag, name), v, s)
            pl.I.may_raise = None

    for q, js, enc in statements():
        pl = Pipeline(project)
        run(q, lambda p, _: p.invoke(js, q, encrypted_cols=enc, rows=[(Sym('a', 'str'), Sym('b', 'str'))]), pl)
    # refused statements
    pl = Pipeline(project)
    for q, js in ((None, statements()[2][1]), ('SELECT', {'select': {'value': 'nocolumn'}, 'from': 't'}),
                  ('SELECT', {'select': {'value': 'v'}, 'from': 'notable'}), ('INSERT', {'insert': 't'}),
                  ('SELECT', {'with': 1})):
        for v, s in pl.invoke(js, q):
            rep.count('refused')
            released(rep, 'refused %s statement' % q, v, s)
    # statements the classifier or the parser chokes on
    for who in ('classifier', 'parser', 'formatter'):
        pl = failing(project, who)
        for v, s in pl.invoke(statements()[2][1], 'INSERT'):
            rep.count('refused')
            released(rep, 'failing %s' % who, v, s)
    # the conversion and bulk entry points
    for fn, info in (('encrypt_sql', INFO), ('batch_process', dict(INFO, batch_process={
            'table': 't', 'columns': ['v', 'i', 'pv'], 'input': Sym('file', 'str')}))):
        from .load import Reader
        rd = Reader()
        rd.chunks = [[[K('abcd'), K('5'), K('p')], [K(''), K(''), K('')]], [[K('efgh'), K('6'), K('q')]]]
        pl = Pipeline(project, intrinsics=rd.intrinsics())
        pl.states()

        def go(p, _, fn=fn, info=info):
            out = []
            p.json, p.qtype, p.alter = {'select': {'value': 'v'}, 'from': 't'}, 'SELECT', None
            for st in p.states():
                f = p.I.mod_get(CTX, fn, st)
                args = [lift(info, st)] + ([Sym('sql', 'str')] if fn == 'encrypt_sql' else [])
                out += p.I.call(f, args, {}, st, None, None)
            return out
        run(fn, go, pl)
    rep.need('failures', 60)
    rep.need('refused', 4)


def is_log(e):
    r = repr(e.recv)
    return e.name.startswith(('logging.', 'time.')) or r.startswith('logging.')


def released(rep, key, v, s):
    taken = {}
    for e in s.trace:
        if e.kind != 'call':
            continue
        if e in sessions(s):
            taken[e.res] = 0
        elif e.name == 'close' and e.recv in taken:
            taken[e.recv] += 1
        elif e.recv != NONE and conn_of(e.recv) in taken and taken[conn_of(e.recv)]:
            rep.bad(key + ': used after close', '%r' % e)
    rep.count('sessions', len(taken))
    rep.check(all(n >= 1 for n in taken.values()), key, 'the session is not given back (%s)' % (
        'the request ends with %r' % (v,) if isinstance(v, Exc) else 'the request succeeds'),
        '%s: session given back' % key)


def check_E06(project, rep):
    """requests do not share mutable state: what outlives a request is the pool registry, the metadata of the table a
    CREATE or DROP names, and conversions stored under an id of their own"""
    sql = Sym('sql', 'str')
    for q, js, enc in statements() + [(c, {'select': {'value': 'v'}, 'from': 't'}, None) for c in
                                      ('encrypt_sql2', 'encrypt_sql1', 'encrypt_sql', 'rewrite')]:
        pl = Pipeline(project)
        base = pl.states()[0]
        if q.islower():
            pl.json, pl.qtype, pl.alter = js, 'SELECT', None
            st = base.copy()
            f = pl.I.mod_get(CTX, q, st)
            args = [lift(INFO, st), sql] if q == 'encrypt_sql' else [sql, K(DB)] if q == 'rewrite' else [K(DB), sql]
            outs = pl.I.call(f, args, {}, st, None, None)
        else:
            outs = pl.invoke(js, q, encrypted_cols=enc, rows=[(Sym('a', 'str'), Sym('b', 'str'))])
        metas = meta_objects(pl, base)
        for v, s in outs:
            rep.count('paths')
            for oid, old in base.heap.items():
                new = s.heap.get(oid)
                if new is old or new is None or same(old, new):
                    continue
                rep.count('shared_objects_changed')
                why = allowed(pl, q, oid, old, new, metas, s)
                rep.check(why is None, '%s: %s' % (q, owner(base, oid)),
                          'a request changes state other requests see: %s %s' % (owner(base, oid), why),
                          '%s changes only %s' % (q, owner(base, oid)))
            if q == 'encrypt_sql2' and not isinstance(v, Exc):
                got = lower(v, s)
                rep.check(isinstance(got, (tuple, list)) and len(got) == 3, 'encrypt_sql2: answer', repr(got))
                rep.check(len(got) == 3 and is_unique(got[2]), 'encrypt_sql2: id',
                          'the id of a conversion is %r: not unique to the request' % (got[2],),
                          'conversion id %r' % (got[2],))
    # two conversions in a row: the state stored under an id is that of its own conversion
    pl = Pipeline(project)
    st = pl.states()[0]
    f = pl.I.mod_get(CTX, 'encrypt_sql2', st)
    d = pl.I.mod_get(CTX, 'decrypt_data', st)
    jsons = [{'select': {'value': 'v'}, 'from': 't'}, {'select': [{'value': 'i'}, {'value': 'pv'}], 'from': 't'}]
    n = 0
    pl.json, pl.alter = jsons[0], None
    for v1, s1 in pl.I.call(f, [K(DB), Sym('sql', 'str')], {}, st, None, None):
        if isinstance(v1, Exc):
            continue
        pl.json = jsons[1]
        for v2, s2 in pl.I.call(f, [K(DB), Sym('sql2', 'str')], {}, s1.copy(), None, None):
            if isinstance(v2, Exc):
                continue
            for which, vid, rows, cols, key in ((0, v1, [Sym('a', 'str')], ['v'], {'key:v'}),
                                                (1, v2, [Sym('b', 'str'), Sym('c', 'str')], ['i', 'pv'], {'key:i'})):
                qid = vid.items[2] if isinstance(vid, Tup) else pl.I.getitem(vid, K(2), s2, None, None)[0][0]
                s3 = s2.copy()
                for v, s4 in pl.I.call(d, [lift({'rows': [rows]}, s3), qid], {}, s3, None, None):
                    n += 1
                    rep.count('paths')
                    got = lower(v, s4) if not isinstance(v, Exc) else v
                    ok = isinstance(got, dict) and len(got.get('rows', [])) == 1 and len(got['rows'][0]) == len(rows)
                    rep.check(ok and got.get('columns') == cols, 'interleaved conversions',
                              'conversion %d is decrypted as %r' % (which, got), 'conversion %d decrypted as its own' % which)
                    if ok:
                        ks = set()
                        for c in got['rows'][0]:
                            for t in find_dec(c):
                                ks |= syms_in(t.args[1])
                        rep.check(ks == key, 'interleaved conversions: key', 'conversion %d is decrypted with %s' % (which, ks))
    rep.check(n >= 2, 'interleaved conversions', 'nothing decrypted')
    rep.need('paths', 12)


def find_dec(v):
    out, stack = [], [v if isinstance(v, V) else K(None)]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.op == 'dec':
                out.append(x)
            stack.extend(y for y in x.args if isinstance(y, V))
        elif isinstance(x, Tup):
            stack.extend(x.items)
    return out


def is_unique(x):
    """a value drawn from a generator of unique values"""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, T):
            if y.op == 'call' and isinstance(y.args[0], K) and str(y.args[0].v) in (
                    'uuid.uuid4', 'uuid.uuid1', 'secrets.token_hex', 'secrets.token_bytes', 'os.urandom',
                    'secrets.token_urlsafe'):
                return True
            if y.op in ('item', 'slice', 'substr'):
                continue                        # a part of it need not be unique
            stack.extend(z for z in y.args if isinstance(z, V))
        elif isinstance(y, Tup):
            stack.extend(y.items)
    return False


def same(a, b):
    if type(a) is not type(b):
        return False
    return all(getattr(a, k) == getattr(b, k) for k in a.__slots__)


def meta_objects(pl, st):
    """oids of the metadata: db dictionary -> table name"""
    d = pl.I.mod_get('scheduler.schema.metadata', 'Delta', st)
    m = st.heap[d.oid].ns.get('meta')
    res = {}
    if isinstance(m, Ref):
        res[m.oid] = 'top'
        for k, v in st.heap[m.oid].items.items():
            if isinstance(v, Ref):
                res[v.oid] = 'db'
    return res


def allowed(pl, q, oid, old, new, metas, s):
    """None when the change is one of the permitted kinds"""
    if isinstance(old, HDict) and isinstance(new, HDict):
        gone = [k for k in old.items if k not in new.items]
        added = [k for k in new.items if k not in old.items]
        changed = [k for k in old.items if k in new.items and old.items[k] != new.items[k]]
        if oid in metas:
            name = {'DROP': 't', 'CREATE': 'n'}.get(q)
            touched = [k for k in gone + added + changed if k != K(name)]
            return None if name and not touched else 'metadata entries %s' % (gone + added + changed)
        if not gone and not changed and added:
            if all(isinstance(new.items[k], T) and opened(new.items[k]) for k in added):
                return None
            if q == 'encrypt_sql2' and all(is_unique(k) for k in added):
                return None
        return 'entries %s added, %s removed, %s changed' % (added, gone, changed)
    if isinstance(old, HInst) and isinstance(new, HInst):
        ch = [k for k in set(old.attrs) | set(new.attrs) if old.attrs.get(k) != new.attrs.get(k)]
        bad = [k for k in ch if not ('config' in syms_in(new.attrs.get(k, NONE)))]
        return None if not bad else 'attributes %s' % bad
    if isinstance(old, HCls) and isinstance(new, HCls):
        ch = [k for k in set(old.ns) | set(new.ns) if old.ns.get(k) != new.ns.get(k)]
        bad = [k for k in ch if not ('config' in syms_in(new.ns.get(k, NONE)))]
        return None if not bad else 'class attributes %s' % bad
    if isinstance(old, HMod):
        ch = [k for k in set(old.ns) | set(new.ns) if old.ns.get(k) != new.ns.get(k)]
        bad = [k for k in ch if not ('config' in syms_in(new.ns.get(k, NONE)))]
        return None if not bad else 'globals %s' % bad
    if isinstance(old, HEnv):
        ch = [k for k in set(old.vars) | set(new.vars) if old.vars.get(k) != new.vars.get(k)]
        return 'variables %s' % ch
    return '%r -> %r' % (old, new)


def opened(t):
    return opened_term(t)


def opened_term(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.op == 'call' and isinstance(x.args[0], K) and str(x.args[0].v).startswith(('dbutils.', 'mysql.')):
                return True
            stack.extend(y for y in x.args if isinstance(y, V))
    return False


def owner(st, oid):
    """a readable name of a shared object: the global, class attribute or default argument it hangs on"""
    for m, r in st.mods.items():
        o = st.heap.get(r.oid) if isinstance(r, Ref) else None
        if isinstance(r, Ref) and r.oid == oid:
            return 'module ' + m
        ns = getattr(o, 'ns', None) or {}
        for k, v in ns.items():
            if isinstance(v, Ref):
                if v.oid == oid:
                    return '%s.%s' % (m, k)
                c = st.heap.get(v.oid)
                if isinstance(c, HCls):
                    for k2, v2 in c.ns.items():
                        if isinstance(v2, Ref) and v2.oid == oid:
                            return '%s.%s.%s' % (m, k, k2)
    return 'an object created at start-up (%s)' % type(st.heap[oid]).__name__
