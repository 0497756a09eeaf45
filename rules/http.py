"""The HTTP service: every route with its request propagated through handler and controller."""
import json as _json
import re

from sa.absint import EXECUTOR

from .meta import *

MODULE = 'service'
ENTRY = ('invoke', 'encrypt_sql', 'encrypt_sql1', 'encrypt_sql2', 'decrypt_data', 'batch_process', 'rewrite')
JDBC = 'jdbc:mysql://dbhost:3307/shop'
DS = {'host': 'dbhost', 'port': 3307, 'db': 'shop', 'user': Sym('ds_user', 'str'), 'password': Sym('ds_password', 'str')}
ROW = (K(7), K('source'), K(JDBC), K('com.mysql'), DS['user'], DS['password'], K(1))
CRED = {k: Sym('r_' + k, 'str') for k in ('host', 'port', 'db', 'user', 'password')}


class Http(Pipeline):
    """start() is the service after its start; request() propagates one HTTP request"""

    def __init__(self, project, real=False, **kw):
        intr = {'json.loads': self._loads, 'json.dumps': self._dumps, '.write': self._write, '.finish': self._write,
                '.run_in_executor': self._submit(1), '.submit': self._submit(0), '.decode': self._decode,
                'ast.literal_eval': self._literal}
        intr.update(kw.pop('intrinsics', {}))
        super().__init__(project, intrinsics=intr, **kw)
        self.fail_ctx = None
        self.answers = {}
        self.inst = None
        if not real:
            for f in ENTRY:
                self.I.intr[CTX + '.' + f] = self._ctx(f)
        self.routes_of = None

    # ---- stand-ins
    def _ctx(self, name):
        def f(I, a, k, st, n, fr):
            ev = Event('ctx', name, NONE, tuple(lower_all(I, x, st) for x in a),
                       {x: lower_all(I, v, st) for x, v in k.items()}, n, st.locks, None, fr and fr.fn)
            I.event(st, ev)
            if self.fail_ctx is not None:
                I.event(st, Event('raised', name, NONE, (), {}, n, st.locks, self.fail_ctx, fr and fr.fn))
                return [(Exc(self.fail_ctx, n), st)]
            return [(lift(self.answers[name], st), st)]
        return f

    def _loads(self, I, a, k, st, n, fr):
        if any(isinstance(x, Sym) and x.name == 'request' for x in parts(a[0], st)):
            if self.body is ValueError:
                I.event(st, Event('raised', 'json.loads', NONE, (), {}, n, st.locks, None, fr and fr.fn))
                return [(I.exc('ValueError', 'json'), st)]
            return [(lift(self.body, st), st)]
        if isinstance(a[0], T) and a[0].op == 'json':
            return [(thaw(a[0].args[0], st), st)]
        if isinstance(a[0], K) and isinstance(a[0].v, str):
            try:
                return [(lift(_json.loads(a[0].v), st), st)]
            except ValueError:
                return [(I.exc('ValueError', 'json'), st)]
        return None

    def _dumps(self, I, a, k, st, n, fr):
        x = lower(a[0], st)
        try:
            return [(K(_json.dumps(x)), st)]
        except (TypeError, ValueError):
            return [(T('json', (I.freeze(a[0], st),), 'str'), st)]

    def _write(self, I, a, k, st, n, fr):
        """tornado writes str, bytes and dict and refuses everything else"""
        if self.inst is None or a[0] != self.inst:
            return None
        if len(a) < 2 and 'chunk' not in k:
            return [(NONE, st)]
        x = a[1] if len(a) > 1 else k['chunk']
        py = lower_all(I, x, st)
        if not (isinstance(py, (str, bytes, dict)) or isinstance(x, Sym) and x.kind in ('str', 'dict', 'bytes') or
                isinstance(x, T) and (x.kind in ('str', 'dict', 'bytes') or x.op in ('json', 'cat', 'str'))):
            I.event(st, Event('raised', 'write', NONE, (), {}, n, st.locks, None, fr and fr.fn))
            return [(I.exc('TypeError', 'write'), st)]
        I.event(st, Event('write', 'write', NONE, (py,), {}, n, st.locks, None, fr and fr.fn))
        return [(NONE, st)]

    def _submit(self, skip):
        def f(I, a, k, st, n, fr):
            a = a[1 + skip:]
            if not a or not isinstance(a[0], (Fn, BM, Partial)):
                return None
            had = EXECUTOR in st.locks
            if not had:
                st.locks = st.locks + (EXECUTOR,)
            out = I.call(a[0], list(a[1:]), k, st, n, fr)
            for _, s in out:
                if not had:
                    s.locks = tuple(x for x in s.locks if x != EXECUTOR)
            return out
        return f

    def _decode(self, I, a, k, st, n, fr):
        if isinstance(a[0], T) and a[0].op == 'bytes_of':
            return [(a[0].args[0], st)]
        return None

    def _literal(self, I, a, k, st, n, fr):
        import ast
        if isinstance(a[0], K) and isinstance(a[0].v, str):
            try:
                return [(lift(ast.literal_eval(a[0].v), st), st)]
            except (ValueError, SyntaxError):
                return [(I.exc('ValueError', 'literal_eval'), st)]
        return None

    # ---- requests
    def start(self):
        if 'http' not in self._starts:
            mr, self.I.may_raise = self.I.may_raise, None
            self._starts['http'] = self.starts(MODULE)
            self.I.may_raise = mr
        return self._starts['http']

    def routes(self, st):
        """[(pattern, handler class)] as registered with tornado"""
        try:
            h = self.I.mod_get(MODULE, 'HANDLERS', st)
        except AnalysisError:
            h = None
        specs = st.heap[h.oid].items if isinstance(h, Ref) else ()
        out = []
        for x in specs:
            items = x.items if isinstance(x, Tup) else ()
            if isinstance(x, T) and x.op == 'call':
                items = list(x.args[2].items) + [p.items[1] for p in x.args[3].items]
            pat = [y.v for y in items if isinstance(y, K) and isinstance(y.v, str) and y.v.startswith('/')]
            cls = [y for y in items if isinstance(y, Ref) and isinstance(st.heap.get(y.oid), HCls)]
            if pat and cls:
                out.append((pat[0], cls[0]))
        if not out:
            raise AnalysisError('no routes found in ' + MODULE)
        return out

    def dispatch(self, path, st):
        """(handler class, arguments, keyword arguments) tornado calls for this path, or None"""
        for pattern, cls in self.routes(st):
            m = re.match(pattern if pattern.endswith('$') else pattern + '$', path)
            if m:
                if m.re.groupindex:
                    return cls, [], {k: K(v) for k, v in m.groupdict().items()}
                return cls, [K(v) for v in m.groups()], {}
        return None

    def request(self, path, body=None, method='post', form=None, rows=(), st=None, answers=None, fail_ctx=None,
                may_raise=None):
        """-> [(value | Exc, state)]; form: the decoded form fields (request.arguments)"""
        st = (st or self.start()[0]).copy()
        st.trace = ()
        route = self.dispatch(path, st)
        if route is None:
            return [(self.I.exc('tornado.web.HTTPError', 'no route'), st)]
        cls, args, kwargs = route
        self.body, self.rows, self.fail_ctx = body, rows, fail_ctx
        self.answers = dict({f: T('answer', (K(f),)) for f in ENTRY}, **(answers or {}))
        req = Sym('request')
        if form is not None:
            req = st.alloc(HInst(Ext('request'), {'body': T('form body', (Sym('request'),), 'bytes'), 'arguments': lift(
                {k: [T('bytes_of', (v,))] for k, v in form.items()}, st)}))
        inst = st.alloc(HInst(cls, {'request': req}))
        self.inst = inst
        self.I.may_raise = may_raise
        out = []
        for f, s in self.I.getattr(inst, method, st, None, None):
            if not isinstance(f, (Fn, BM, Partial)):
                raise AnalysisError('%s has no %s' % (path, method))
            out += self.I.call(f, list(args), dict(kwargs), s, None, None)
        self.I.may_raise = None
        return out


def lower_all(I, x, st):
    """lower(), with sets and nested frozen structures opened"""
    return lower(x, st)


def writes(s):
    return [e.args[0] for e in s.trace if e.kind == 'write']


def calls(s):
    return [e for e in s.trace if e.kind == 'ctx']


def code_of(x):
    return x.v if isinstance(x, K) and isinstance(x.v, int) else None


def is_error(v, s):
    """does tornado answer this outcome with an error status?"""
    status = 200
    for e in s.trace:
        if e.kind == 'call' and e.name in ('set_status', 'send_error') and (e.args or e.kw):
            c = code_of(e.args[0] if e.args else e.kw.get('status_code', NONE))
            status = c if c is not None else status
        elif e.kind == 'call' and e.name == 'send_error':
            status = 500
        elif e.kind == 'call' and e.name == 'clear':
            status = 200
    if isinstance(v, Exc):
        x = v.val
        name = str(x.args[0].v) if isinstance(x, T) and x.op == 'call' and isinstance(x.args[0], K) else ''
        if name.endswith('HTTPError'):
            c = code_of(x.args[2].items[0]) if x.args[2].items else 500
            return c is None or c >= 400
        if name.endswith('Finish'):
            return status >= 400
        return True
    return status >= 400


ENC = {'name': {'fuzzy': True, 'key': Sym('k_name', 'str')}}
GRID = [{'name': 'id', 'type': 'int', 'length': '11', 'encryption': 'false', 'fuzzy': 'false', 'token': ''},
        {'name': 'name', 'type': 'varchar', 'length': '20', 'encryption': 'true', 'fuzzy': 'true', 'token': Sym('k_name', 'str')},
        {'name': 'code', 'type': 'char', 'length': '8', 'encryption': 'TRUE', 'fuzzy': 'False', 'token': Sym('k_code', 'str')},
        {'name': 'note', 'type': 'varchar', 'length': '40', 'encryption': 'False', 'fuzzy': 'true', 'token': ''}]
SQL = Sym('statement', 'str')
ANSWER = {'result': [(Sym('x0'), Sym('y0')), (Sym('x1'), Sym('y1'))], 'columns': [['a', 'b'], ['int', 'varchar']]}
PAIR = ([(Sym('x0'), Sym('y0')), (Sym('x1'), Sym('y1'))], [['a', 'b'], ['int', 'varchar']])


def requests():
    """(tag, path, request fields, fields it cannot do without, keyword arguments of Http.request)"""
    stmt = 'select a from t'
    ds = dict(rows=[ROW])
    return [
        ('/query', '/query', dict(CRED, query=SQL), ['query'], dict(answers={'invoke': PAIR})),
        ('/query create', '/query', dict(CRED, query=SQL, encrypted_columns=ENC), ['query'], dict(answers={'invoke': PAIR})),
        ('/query load', '/query', dict(CRED, batch_process={'table': 't', 'columns': ['a'], 'input': Sym('file', 'str')}), [], {}),
        ('/query_jar', '/query_jar', None, ['query'], dict(form={k: CRED[k] for k in ('db', 'user', 'password')},
                                                           answers={'invoke': PAIR})),
        ('/rewrite_query', '/rewrite_query', {'query': SQL, 'db': Sym('r_db', 'str')}, ['query', 'db'],
         dict(answers={'rewrite': (Sym('rewritten', 'str'), 't')})),
        ('/rewrite_query create', '/rewrite_query', {'query': SQL, 'db': Sym('r_db', 'str'), 'encrypt_cols': ENC},
         ['query', 'db'], dict(answers={'rewrite': (Sym('rewritten', 'str'), 't')})),
        ('/jdbc_query', '/jdbc_query', {'sqlQuery': stmt + ';', 'jdbcDataSourceId': Sym('ds_id'), 'ciphertext': True,
                                        'resultLimit': 10}, ['sqlQuery', 'jdbcDataSourceId'], dict(ds, answers={'invoke': PAIR})),
        ('/jdbc_query create', '/jdbc_query', {'create_table': SQL, 'selectedJdbcDataSource': {'value': Sym('ds_id')},
                                               'encrypted_columns': ENC}, ['selectedJdbcDataSource', 'encrypted_columns'],
         dict(ds, answers={'invoke': PAIR})),
        ('/create_table', '/create_table', {'selectedJdbcDataSource': {'value': Sym('ds_id')}, 'dataSource': GRID, 'count': 4,
                                            'table_name': 'n'}, ['selectedJdbcDataSource', 'dataSource', 'count', 'table_name'],
         dict(ds, answers={'invoke': PAIR})),
        ('/encrypt_sql', '/encrypt_sql', {'sqlQuery': stmt + ';;', 'jdbcDataSourceId': Sym('ds_id')},
         ['sqlQuery', 'jdbcDataSourceId'], dict(ds, answers={'encrypt_sql': Sym('rewritten', 'str')})),
        ('/encrypt_sql backend', '/encrypt_sql', dict(CRED, backend=True, query=SQL), ['query'],
         dict(answers={'encrypt_sql': Sym('rewritten', 'str')})),
        ('/encrypt_sql1', '/encrypt_sql1', {'db': Sym('r_db', 'str'), 'sql': SQL}, ['db', 'sql'],
         dict(answers={'encrypt_sql1': (Sym('rewritten', 'str'), 't')})),
        ('/encrypt_sql2', '/encrypt_sql2', {'db': Sym('r_db', 'str'), 'sql': SQL}, ['db', 'sql'],
         dict(answers={'encrypt_sql2': (Sym('rewritten', 'str'), 't', Sym('id', 'str'))})),
        ('/decrypt_data', '/decrypt_data', {'query_id': Sym('id', 'str'), 'data': Sym('cipher rows')}, ['query_id', 'data'],
         dict(answers={'decrypt_data': {'columns': ['a'], 'rows': [[Sym('x0')]]}})),
    ]


FAILURES = [('failure', EXCV)] + [(n, T('exc', (K(n), K('x')))) for n in ('ValueError', 'KeyError', 'TypeError', 'AttributeError',
                                                                         'NotImplementedError')] + [
    (n, T('call', (K('mysql.connector.errors.' + n), NONE, Tup([K('x')]), Tup([]), K(0)))) for n in ('OperationalError',
                                                                                              'ProgrammingError')]


def outcome(rep, key, v, s, what):
    rep.count('failing requests')
    w = writes(s)
    rep.check(is_error(v, s), key, '%s is answered as a success: %s' % (what, (w[-1:] or ['an empty answer'])[0]),
              '%s: error status' % key)


def check_E07(project, rep):
    """no outcome of a failing request has a success status"""
    h = Http(project)
    for tag, path, body, needed, kw in requests():
        form = kw.get('form')

        def go(body=body, **more):
            a = dict(kw, **more)
            if form is not None:
                a['form'] = dict(form, query=SQL) if 'form' not in more else more['form']
            return h.request(path, body, **a)
        if h.routes_of is None:
            h.routes_of = {p for p, _ in h.routes(h.start()[0])}
        if not rep.check(path in h.routes_of, tag, 'the route %s is gone' % path):
            continue
        # the request itself works
        for v, s in go():
            if not is_error(v, s) and calls(s):
                rep.count('answered')
        # the rewriting, the backend
        for name, x in FAILURES:
            for v, s in go(fail_ctx=x):
                if any(e.kind == 'raised' for e in s.trace):
                    outcome(rep, '%s: failing statement' % path, v, s, 'a statement that failed (%s)' % name)
        # the request
        if form is None:
            for bad, what in ((ValueError, 'not JSON'), ({}, 'empty')) + tuple(
                    ({k: x for k, x in body.items() if k != f}, 'no ' + f) for f in needed):
                if what == 'not JSON' and path == '/rewrite_query':
                    continue
                for v, s in go(body=bad):
                    outcome(rep, '%s: request %s' % (path, what), v, s, 'a request that is malformed (%s)' % what)
        else:
            for bad, what in (({}, 'empty'), (form, 'no query')):
                for v, s in go(form=bad):
                    outcome(rep, '%s: request %s' % (path, what), v, s, 'a request that is malformed (%s)' % what)
        # the data source
        if kw.get('rows'):
            for v, s in go(rows=[]):
                outcome(rep, '%s: unknown data source' % path, v, s, 'a request for an unknown data source')
            for v, s in go(rows=[ROW[:2] + (K('jdbc:postgresql://dbhost:5432/shop'),) + ROW[3:]]):
                outcome(rep, '%s: data source of another kind' % path, v, s, 'a request for a data source that is not MySQL')
            for what in ('cursor', 'execute', 'fetchall'):
                for v, s in go(may_raise=lambda I, e, st: EXCV if e.name == what and (side(e) == 'store' or e.recv == NONE)
                               else None):
                    if any(e.kind == 'raised' for e in s.trace):
                        outcome(rep, '%s: metadata store' % path, v, s, 'a request with a failing metadata store (%s)' % what)
    for rows, what in (([], 'unknown data source'),):
        for v, s in h.request('/jdbc_query/schema/7', {}, method='get', rows=rows):
            outcome(rep, '/jdbc_query/schema: ' + what, v, s, 'a request for an ' + what)
    for what in ('cursor', 'execute', 'fetchall'):
        for v, s in h.request('/jdbc_query/schema/7', {}, method='get', rows=[ROW],
                              may_raise=lambda I, e, st: EXCV if e.name == what and (side(e) == 'store' or e.recv == NONE) else None):
            if any(e.kind == 'raised' for e in s.trace):
                outcome(rep, '/jdbc_query/schema: metadata store', v, s, 'a request with a failing metadata store (%s)' % what)
    rep.need('failing requests', 150)
    rep.need('answered', 12)


# ------------------------------------------------------------------------------------------ E10
def bound(project, e):
    """arguments of a gateway entry point by position, defaults filled in"""
    import ast
    fn = next((n for n in project.mod(CTX).tree.body if isinstance(n, ast.FunctionDef) and n.name == e.name), None)
    if fn is None:
        raise AnalysisError('%s.%s is gone' % (CTX, e.name))
    names = [a.arg for a in fn.args.args]
    res = dict(zip(names[len(names) - len(fn.args.defaults):], [ast.literal_eval(d) for d in fn.args.defaults]))
    res.update(zip(names, e.args))
    res.update(e.kw)
    return [res.get(n) for n in names]


def info_is(got, want):
    return isinstance(got, dict) and all(k in got and got[k] == v and type(got[k]) == type(v) for k, v in want.items())


VALUES = ([(1, 'x'), (None, "y'z"), (-7, '')], [['a', 'b'], ['int', 'varchar']])
OUT = 'select phys from table_phys'
DSINFO = {'host': 'dbhost', 'port': 3307, 'db': 'shop', 'user': DS['user'], 'password': DS['password']}


def jdbc_answer(w, values):
    """is the answer of /jdbc_query the rows, under their names?"""
    rows, (names, types) = values
    if not rows:
        return w in ({}, '') or isinstance(w, dict) and w.get('data') in ('[]', [], None)
    if not isinstance(w, dict) or w.get('error'):
        return False
    try:
        data = _json.loads(w['data']) if isinstance(w['data'], str) else w['data']
        cols = [c['name'] for c in w['columns']]
    except (KeyError, TypeError, ValueError):
        return False
    if len(rows[0]) == len(names) and cols != list(names):
        return False
    if len(cols) != len(rows[0]) or any(c['dbType'] not in ('INT', 'VARCHAR') for c in w['columns']):
        return False
    if len(rows[0]) == len(names) and [c['dbType'] for c in w['columns']] != [
            'VARCHAR' if t == 'varchar' else 'INT' for t in types]:
        return False
    return len(data) == len(rows) and all(isinstance(d, dict) and [d.get(c, d) for c in cols] == list(r) and len(d) == len(r)
                                          for d, r in zip(data, rows))


def expectations():
    """(tag, path, body, keyword arguments, entry point, predicate on the bound arguments, predicate on the answer, store lookup)"""
    def stmt(text, info, enc=None, extra=lambda i: True):
        def f(a):
            return info_is(a[0], info) and a[1] == text and (a[2] == enc if enc else not a[2]) and extra(a[0])
        return f
    grid = {'result': PAIR[0], 'columns': PAIR[1]}
    clear = (lambda i: not i.get('ciphertext'))
    ds = dict(rows=[ROW])
    out = []
    for q in (SQL, 'select a from t'):
        out.append(('/query', '/query', dict(CRED, query=q), dict(answers={'invoke': PAIR}), 'invoke', stmt(q, CRED, None, clear),
                    lambda w: w == grid, None))
        out.append(('/query create', '/query', dict(CRED, query=q, encrypted_columns=ENC), dict(answers={'invoke': ([], [[], []])}),
                    'invoke', stmt(q, CRED, ENC, clear), lambda w: w == {'result': []}, None))
    load = {'table': 't', 'columns': ['a'], 'input': Sym('file', 'str')}
    out.append(('/query load', '/query', dict(CRED, batch_process=load), {}, 'batch_process',
                lambda a: info_is(a[0], dict(CRED, batch_process=load)), lambda w: w == {'result': []}, None))
    out.append(('/query_jar', '/query_jar', None, dict(form=dict({k: CRED[k] for k in ('db', 'user', 'password')}, query=SQL),
                                                       answers={'invoke': PAIR}), 'invoke',
                stmt(SQL, {k: CRED[k] for k in ('db', 'user', 'password')}, None, lambda i: clear(i) and configured(i)),
                lambda w: w == grid, None))
    for own in ({'port': '9999'}, {'host': 'elsewhere'}, {'host': 'elsewhere', 'port': '9999', 'limit': '3'}):
        out.append(('/query_jar with %s' % ' and '.join(sorted(own)), '/query_jar', None, dict(
            form=dict({k: CRED[k] for k in ('db', 'user', 'password')}, query=SQL, **own), answers={'invoke': PAIR}), 'invoke',
            stmt(SQL, {k: CRED[k] for k in ('db', 'user', 'password')}, None, lambda i: clear(i) and configured(i)),
            lambda w: w == grid, None))
    for enc in (None, ENC):
        b = {'query': SQL, 'db': CRED['db']}
        if enc:
            b['encrypt_cols'] = enc
        out.append(('/rewrite_query', '/rewrite_query', b, dict(answers={'rewrite': (OUT, 't')}), 'rewrite',
                    lambda a, enc=enc: a[:2] == [SQL, CRED['db']] and (a[2] == enc if enc else not a[2]),
                    lambda w: w == {'encrypt_sql': OUT, 'table': 't'}, None))
    more = ([(1, 'x', 5)], [['*', 'b'], ['int', 'varchar']])
    for semi in ('', ';', ';;'):
        for ct in (True, False):
            for vals in (VALUES, ([], [[], []]), ([(Sym('x0', 'int'),)], [['a'], ['int']])[:0] or VALUES, more):
                out.append(('/jdbc_query', '/jdbc_query', {'sqlQuery': 'select a from t' + semi, 'jdbcDataSourceId': Sym('ds_id'),
                                                           'ciphertext': ct, 'resultLimit': 10}, dict(ds, answers={'invoke': vals}),
                            'invoke', stmt('select a from t', DSINFO, None, lambda i, ct=ct: bool(i.get('ciphertext')) == ct),
                            lambda w, vals=vals: jdbc_answer(w, vals), Sym('ds_id')))
    for names in range(4):
        for width in range(max(names, 1), 6):
            for row in ([1, 'x', 2, None, 3], [None, 1, 'x', 2, 'y']):
                vals = ([tuple(row[:width]), (9, 8, 'z', None, '')[:width]],
                        [['c%d' % i for i in range(names)], ['int', 'varchar', 'int', 'int'][:names]])
                out.append(('/jdbc_query %d of %d names' % (names, width), '/jdbc_query', {
                    'sqlQuery': 'select a from t', 'jdbcDataSourceId': Sym('ds_id'), 'ciphertext': False}, dict(
                        ds, answers={'invoke': vals}), 'invoke', stmt('select a from t', DSINFO),
                    lambda w, vals=vals: jdbc_answer(w, vals), Sym('ds_id')))
    for host, port, db in (('10.0.0.1', 3306, 'd1'), ('b.example.org', 13306, 'Shop_2'), ('localhost', 33060, 'x')):
        row = ROW[:2] + (K('jdbc:mysql://%s:%d/%s' % (host, port, db)),) + ROW[3:]
        info = dict(DSINFO, host=host, port=port, db=db)
        out.append(('/jdbc_query source', '/jdbc_query', {'sqlQuery': 'select a from t', 'jdbcDataSourceId': Sym('ds_id'),
                                                          'ciphertext': False}, dict(rows=[row], answers={'invoke': VALUES}),
                    'invoke', stmt('select a from t', info), lambda w: jdbc_answer(w, VALUES), Sym('ds_id')))
        out.append(('/encrypt_sql source', '/encrypt_sql', {'sqlQuery': 'select a from t', 'jdbcDataSourceId': Sym('ds_id')},
                    dict(rows=[row], answers={'encrypt_sql': OUT}), 'encrypt_sql',
                    lambda a, info=info: info_is(a[0], info) and a[1] == 'select a from t',
                    lambda w: w == {'encrypt_sql': OUT}, Sym('ds_id')))
        out.append(('/create_table source', '/create_table', {'selectedJdbcDataSource': {'value': Sym('ds_id')}, 'dataSource': GRID,
                                                              'count': 2, 'table_name': 'n'}, dict(rows=[row], answers={'invoke': PAIR}),
                    'invoke', lambda a, info=info: info_is(a[0], info) and grid_table(a[1], a[2], GRID[:2]), lambda w: True,
                    Sym('ds_id')))
    for text in ("select a from t where b = 'x;y'", "select a from t where b = ';'", ' select 1 '):
        for semi in ('', ';;'):
            out.append(('/jdbc_query text', '/jdbc_query', {'sqlQuery': text + semi, 'jdbcDataSourceId': Sym('ds_id'),
                                                            'ciphertext': False}, dict(ds, answers={'invoke': VALUES}), 'invoke',
                        stmt(text, DSINFO), lambda w: jdbc_answer(w, VALUES), Sym('ds_id')))
            out.append(('/encrypt_sql text', '/encrypt_sql', {'sqlQuery': text + semi, 'jdbcDataSourceId': Sym('ds_id')},
                        dict(ds, answers={'encrypt_sql': OUT}), 'encrypt_sql',
                        lambda a, text=text: info_is(a[0], DSINFO) and a[1] == text, lambda w: w == {'encrypt_sql': OUT},
                        Sym('ds_id')))
    out.append(('/jdbc_query equal names', '/jdbc_query', {'sqlQuery': 'select t.a, s.a from t, s', 'jdbcDataSourceId': Sym('ds_id'),
                                                           'ciphertext': False}, dict(ds, answers={'invoke': (
                                                               [(1, 2)], [['a', 'a'], ['int', 'int']])}), 'invoke',
                stmt('select t.a, s.a from t, s', DSINFO), lambda w: both_values(w), Sym('ds_id')))
    for e in (ENC, repr({'name': {'fuzzy': True, 'key': 'kk'}})):
        want = ENC if e is ENC else {'name': {'fuzzy': True, 'key': 'kk'}}
        out.append(('/jdbc_query create', '/jdbc_query', {'create_table': SQL, 'selectedJdbcDataSource': {'value': Sym('ds_id')},
                                                          'encrypted_columns': e}, dict(ds, answers={'invoke': PAIR}), 'invoke',
                    stmt(SQL, DSINFO, want), lambda w: True, Sym('ds_id')))
    for n in range(1, len(GRID) + 1):
        out.append(('/create_table', '/create_table', {'selectedJdbcDataSource': {'value': Sym('ds_id')}, 'dataSource': GRID,
                                                       'count': n, 'table_name': 'n'}, dict(ds, answers={'invoke': PAIR}), 'invoke',
                    lambda a, n=n: info_is(a[0], DSINFO) and grid_table(a[1], a[2], GRID[:n]), lambda w: True, Sym('ds_id')))
    for semi in ('', ';', ';;'):
        out.append(('/encrypt_sql', '/encrypt_sql', {'sqlQuery': 'select a from t' + semi, 'jdbcDataSourceId': Sym('ds_id')},
                    dict(ds, answers={'encrypt_sql': OUT}), 'encrypt_sql',
                    lambda a: info_is(a[0], DSINFO) and a[1] == 'select a from t',
                    lambda w: w == {'encrypt_sql': OUT}, Sym('ds_id')))
    out.append(('/encrypt_sql backend', '/encrypt_sql', dict(CRED, backend=True, query=SQL),
                dict(answers={'encrypt_sql': OUT}), 'encrypt_sql',
                lambda a: info_is(a[0], CRED) and a[1] == SQL, lambda w: w == {'encrypt_sql': OUT}, None))
    out.append(('/encrypt_sql1', '/encrypt_sql1', {'db': CRED['db'], 'sql': 'select a from t'},
                dict(answers={'encrypt_sql1': (OUT, 't')}), 'encrypt_sql1', lambda a: a == [CRED['db'], 'select a from t'],
                lambda w: w == {'encrypt_sql': OUT, 'table': 't'}, None))
    out.append(('/encrypt_sql2', '/encrypt_sql2', {'db': CRED['db'], 'sql': 'select a from t'},
                dict(answers={'encrypt_sql2': (OUT, 't', Sym('id', 'str'))}), 'encrypt_sql2',
                lambda a: a == [CRED['db'], 'select a from t'],
                lambda w: w == {'encrypt_sql': OUT, 'table': 't', 'id': Sym('id', 'str')}, None))
    ans = [[1, 'x'], [2, None]]
    out.append(('/decrypt_data', '/decrypt_data', {'query_id': Sym('id', 'str'), 'data': Sym('cipher rows')},
                dict(answers={'decrypt_data': ans}), 'decrypt_data', lambda a: a == [Sym('cipher rows'), Sym('id', 'str')],
                lambda w: w == {'query_id': Sym('id', 'str'), 'data': ans}, None))
    return out


def both_values(w):
    try:
        data = _json.loads(w['data']) if isinstance(w['data'], str) else w['data']
        return sorted(data[0].values() if isinstance(data[0], dict) else data[0]) == [1, 2] and len(w['columns']) == 2
    except (KeyError, TypeError, ValueError, IndexError, AttributeError):
        return False


def configured(info):
    """host and port of /query_jar are those of config.yaml"""
    return all(isinstance(info.get(k), V) and syms_in(info[k]) == {'config'} and repr(K(k)) in repr(info[k]) and 'back_db' in
               repr(info[k]) for k in ('host', 'port'))


def grid_table(text, enc, grid):
    d = parse_ddl(text) if isinstance(text, str) else None
    if d is None or d[0] != 'n' or d[2]:
        return False
    want = [(c['name'], c['type'].upper(), c['length'] if c['type'] != 'int' else None) for c in grid]
    return [(n, t, a) for n, t, a, _ in d[1]] == want and enc == {
        c['name']: {'fuzzy': c['fuzzy'].lower() == 'true', 'key': c['token']} for c in grid if c['encryption'].lower() == 'true'}


def lookups(s):
    return [e for e in s.trace if e.kind == 'call' and e.name == 'execute' and side(e) == 'store' and
            'p_datasource' in repr(e.args[:1])]


def check_E10(project, rep):
    """each route hands the gateway what was sent and answers with what the gateway returned"""
    h = Http(project)
    start = h.start()[0]
    todo = expectations()

    def one(st, before, item):
        tag, path, body, kw, entry, args_ok, answer_ok, ds = item
        for v, s in h.request(path, body, st=st, **kw):
            if is_error(v, s) and not calls(s):
                rep.count('refused')
                continue
            rep.count('requests')
            key = tag + before
            c = calls(s)
            if not rep.check([e.name for e in c] == [entry], key + ': call', 'the gateway is asked for %s' % [e.name for e in c]):
                yield s
                continue
            a = bound(project, c[0])
            rep.check(args_ok(a), key + ': arguments', 'the request %s reaches the gateway as %s' % (body or kw.get('form'), a),
                      '%s: arguments' % key)
            look = lookups(s)
            if ds is not None:
                ok = len(look) == 1 and len(look[0].args) > 1 and isinstance(look[0].args[1], Tup) and \
                    look[0].args[1].items == (ds,) and re.search(r'\bid\s*=\s*(%s|\?)', repr(look[0].args[0]))
                rep.check(bool(ok), key + ': data source', 'the data source is looked up with %s' % [e.args for e in look])
            w = writes(s)
            rep.check(not is_error(v, s) and len(w) == 1 and answer_ok(w[0]), key + ': answer', 'the answer of %s is %s' % (
                kw.get('answers'), w), '%s: answer' % key)
            yield s
    ends = []
    for item in todo:
        n = 0
        for s in one(start, '', item):
            n += 1
            if item[0] not in [x for x, _ in ends]:
                ends.append((item[0], s))
        rep.check(n > 0, item[0] + ': refused', 'the request %s is never carried out' % (item[2] or item[3].get('form'),))
    # a second request is not told apart from a first one
    for tag, s in ends:
        s = s.copy()
        s.trace = ()
        for item in todo:
            for _ in one(s, '', item):
                rep.count('second requests')
    rep.need('requests', 25)
    rep.need('second requests', 100)


# ------------------------------------------------------------------------------------------ E09
def check_E09(project, rep):
    """every statement, and every query of the metadata store, runs on a worker thread"""
    h = Http(project)
    for tag, path, body, needed, kw in requests():
        a = dict(kw)
        if 'form' in a:
            a['form'] = dict(a['form'], query=SQL)
        outs = h.request(path, body, **a)
        worker(rep, tag, outs)
    worker(rep, '/jdbc_query/schema', h.request('/jdbc_query/schema/7', {}, method='get', rows=[ROW]))
    rep.need('blocking calls', 25)


def worker(rep, tag, outs):
    n = 0
    for v, s in outs:
        for e in s.trace:
            if e.kind == 'ctx' or e.kind == 'call' and side(e) == 'store':
                n += 1
                rep.count('blocking calls')
                rep.check(EXECUTOR in e.locks, tag, '%s blocks the event loop: it is called on its thread' % e.name,
                          '%s: %s on a worker thread' % (tag, e.name))
    rep.check(n > 0, tag + ': no work', 'no path of this request does anything')


# ------------------------------------------------------------------------------------------ M06
LISTED = [('shop', 'b', [('id', 'int', True), ('name', 'varchar', False), ('f', 'float', False)]),
          ('shop', 'a', [('x', 'int', False)]),
          ('other', 'a', [('secret', 'varchar', False)]),
          ('shop', 'c', [('d', 'double', False), ('t', 'char', True), ('u', 'date', True), ('id', 'varchar', True)]),
          ('shopping', 'z', [('q', 'int', True)]), ('shopping', 'Z', [('r', 'varchar', False)]),
          ('shopping', 'z1', [('q', 'varchar', True), ('r', 'int', False)])]


def store_rows(order):
    rows = []
    for d, t, cols in LISTED:
        for c, typ, plain in cols:
            ci = {'enc-cols': {} if plain else {'symmetric': 'PHYS_' + c}, 'plaintext': plain, 'type': typ,
                  'key': '' if plain else 'KEY_' + c}
            rows.append((d, 'mysql', t, 'PHYS_' + t, _json.dumps({c: ci}), ''))
    return rows if order == 'created' else sorted(rows, key=lambda r: r[4]) if order == 'mixed' else rows[::-1]


COLS = ['database_name', 'database_type', 'table_name', 'table_anonymous', 'col_info', 'key_info']
STORE_SQL = re.compile(r'^\s*select\s+(?P<what>.*?)\s+from\s+p_db_meta(?:\s+where\s+(?P<where>.*?))?(?:\s+order\s+by\s+(?P<order>[\w, ]+?))?\s*;?\s*$',
                       re.I | re.S)


def answer_store(sql, params, rows):
    """the rows a SELECT on p_db_meta yields"""
    m = STORE_SQL.match(sql)
    if not m:
        raise AnalysisError('cannot read the query of the metadata store: %s' % sql)
    params = list(params)
    for cond in re.split(r'\s+and\s+', m.group('where') or '', flags=re.I):
        if not cond.strip():
            continue
        c = re.match(r"(\w+)\s*(=|like)\s*(%s|\?|'[^']*')$", cond.strip(), re.I)
        if not c or c.group(1) not in COLS:
            raise AnalysisError('cannot read the condition %s' % cond)
        x = params.pop(0) if c.group(3) in ('%s', '?') else c.group(3)[1:-1]
        i = COLS.index(c.group(1))
        if c.group(2) == '=':
            rows = [r for r in rows if r[i] == x]
        else:
            rx = re.compile(''.join('.*' if ch == '%' else '.' if ch == '_' else re.escape(ch) for ch in x) + r'\Z', re.S | re.I)
            rows = [r for r in rows if rx.match(r[i])]
    for k in reversed([x.strip() for x in (m.group('order') or '').split(',') if x.strip()]):
        name, _, desc = k.partition(' ')
        rows = sorted(rows, key=lambda r: r[COLS.index(name)], reverse=desc.strip().lower() == 'desc')
    names = [x.strip() for x in m.group('what').split(',')]
    idx = list(range(6)) if names == ['*'] else [COLS.index(n) for n in names]
    return [tuple(r[i] for i in idx) for r in rows]


def check_M06(project, rep):
    h = Http(project)

    def fetchall(I, a, k, st, n, fr):
        for e in reversed(st.trace):
            if e.kind == 'call' and e.name == 'execute':
                if 'p_datasource' in repr(e.args[0]):
                    p = e.args[1].items if len(e.args) > 1 and isinstance(e.args[1], Tup) else ()
                    if len(p) != 1 or not isinstance(p[0], K) or str(p[0].v) != h.id:
                        return [(lift([], st), st)]
                    return [(lift([ROW[:2] + (K('jdbc:mysql://dbhost:3307/' + h.db),) + ROW[3:]], st), st)]
                if not isinstance(e.args[0], K):
                    raise AnalysisError('the query of the metadata store is not constant')
                p = [x.v if isinstance(x, K) else x for x in e.args[1].items] if len(e.args) > 1 else []
                return [(lift(answer_store(e.args[0].v, p, h.store_rows), st), st)]
        raise AnalysisError('nothing is executed before fetchall')
    h.I.intr['.fetchall'] = fetchall
    for order in ('created', 'reversed', 'mixed'):
        for db, h.id in (('shop', '7'), ('other', '12'), ('shopping', '345'), ('empty', '1'), ('shop', '60'), ('sh_p', '8'), ('SHOP', '9'), ('shop%', '11'),
                         ('hop', '13')):
            h.db, h.store_rows = db, store_rows(order)
            for v, s in h.request('/jdbc_query/schema/' + h.id, {}, method='get'):
                key = 'schema of %s, data source %s, rows %s' % (db, 'of one digit' if len(h.id) == 1 else 'of several digits', order)
                rep.count('listings')
                w = writes(s)
                if not rep.check(not is_error(v, s) and len(w) == 1, key, 'is answered with %s' % (w or v,)):
                    continue
                text = w[0] if isinstance(w[0], (str, dict)) else repr(w[0])
                try:
                    got = _json.loads(text) if isinstance(text, str) else text
                    got = {} if got in ([], {}) else {t['name']: [(c['name'], c['dbType']) for c in t['columns']] for t in got}
                    n = len(_json.loads(text)) if isinstance(text, str) else 0
                except (ValueError, KeyError, TypeError):
                    rep.check(False, key, 'the listing is not one of tables and columns: %s' % str(text)[:200])
                    continue
                want = {}
                for d, t, cols in LISTED:
                    if d == db:
                        want[t] = [(c if plain else c + ' *', typ) for c, typ, plain in cols]
                rep.check(n == len(want) and set(got) == set(want), key + ': tables', 'the database has the tables %s, listed %s' % (
                    sorted(want), sorted(got)), '%s: tables' % key)
                for t in want:
                    g = got.get(t, [])
                    ok = [x for x, _ in g] == [x for x, _ in want[t]] if order == 'created' else \
                        sorted(x for x, _ in g) == sorted(x for x, _ in want[t])
                    rep.check(ok, key + ': columns', 'table %s has %s, listed %s' % (t, want[t], g), '%s: columns of %s' % (key, t))
                    types = dict(want[t])
                    for name, dbt in g:
                        typ = types.get(name)
                        ok = {'int': 'INT', 'varchar': 'VARCHAR'}.get(typ)
                        rep.check(dbt.startswith(ok) if ok else bool(dbt) and not dbt.startswith(('INT', 'VARCHAR')),
                                  key + ': types', '%s %s is listed as %s' % (name, typ, dbt))
                rep.check('KEY_' not in str(text) and 'PHYS_' not in str(text), key + ': keys', 'the listing shows %s' % (
                    'keys' if 'KEY_' in str(text) else 'physical names'), '%s: no keys' % key)
    rep.need('listings', 15)
