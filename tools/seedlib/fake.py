"""Stand-ins for the MySQL driver and pandas, and a small gateway set up in a scratch directory.  Everything the code
under test 'executes' is recorded, nothing is contacted."""
import atexit, os, shutil, sys, tempfile, types
REPO = os.getcwd()
SCRATCH = tempfile.mkdtemp(prefix='eulerdemo')
atexit.register(shutil.rmtree, SCRATCH, True)
shutil.copy(os.path.join(REPO, 'config.yaml'), SCRATCH)
os.chdir(SCRATCH)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

EVENTS = []            # (connection number, database, what, ...)
ROWS = []              # result sets handed out by fetchall of the backend, in turn
STORE = []             # rows of the metadata store
SOURCES = [(7, 'src', 'jdbc:mysql://dbhost:3311/shop', 'drv', 'u', 'p', 'select 1')]     # the data sources
FAIL = []              # list of callables(event) -> exception or None


class Error(Exception): pass
class Warning(Exception): pass
class InterfaceError(Error): pass
class DatabaseError(Error): pass
class DataError(DatabaseError): pass
class OperationalError(DatabaseError): pass
class IntegrityError(DatabaseError): pass
class InternalError(DatabaseError): pass
class ProgrammingError(DatabaseError): pass
class NotSupportedError(DatabaseError): pass


def event(conn, what, *args):
    ev = (conn.number, conn.db, what) + args
    EVENTS.append(ev)
    for f in list(FAIL):
        e = f(ev)
        if e is not None:
            raise e


class Cursor:
    def __init__(self, conn):
        self.connection, self.rows, self.rowcount, self.description = conn, [], -1, None
    def execute(self, sql, args=None):
        event(self.connection, 'execute', sql, args)
        if self.connection.db == 'eulerdb_schema':
            low = sql.lower()
            if low.startswith('select') and 'p_datasource' in low:
                self.rows = [r for r in SOURCES if r[0] in args]
            elif low.startswith('select'):
                self.rows = list(STORE)
            elif low.startswith('insert'):
                self.connection.pending.append(('i', tuple(args)))
            elif low.startswith('delete'):
                self.connection.pending.append(('d', tuple(args)))
        elif sql.lower().startswith('select'):
            self.rows = ROWS.pop(0) if ROWS else []
    def executemany(self, sql, rows):
        for r in list(rows):
            self.execute(sql, r)
    def fetchall(self):
        event(self.connection, 'fetch')
        return self.rows
    def fetchone(self):
        event(self.connection, 'fetch')
        return self.rows.pop(0) if self.rows else None
    def close(self): pass
    def setinputsizes(self, *a): pass
    def setoutputsize(self, *a): pass


class Connection:
    count = 0
    def __init__(self, **kw):
        self.kw = kw
        self.db = kw.get('database') or kw.get('db')
        Connection.count += 1
        self.number, self.pending, self.closed = Connection.count, [], False
        event(self, 'connect', kw)
    def cursor(self, *a, **k):
        return Cursor(self)
    def commit(self):
        event(self, 'commit')
        for k, r in self.pending:
            if k == 'i':
                STORE.append(r)
            else:
                STORE[:] = [x for x in STORE if not (x[0] == r[0] and x[2] == r[1])]
        self.pending = []
    def rollback(self):
        event(self, 'rollback')
        self.pending = []
    def ping(self, *a, **k): pass
    def close(self):
        self.closed = True
        event(self, 'close')


def connect(*a, **kw):
    return Connection(**kw)


mysql = types.ModuleType('mysql')
connector = types.ModuleType('mysql.connector')
for n in ('Error', 'Warning', 'InterfaceError', 'DatabaseError', 'DataError', 'OperationalError', 'IntegrityError',
          'InternalError', 'ProgrammingError', 'NotSupportedError', 'connect'):
    setattr(connector, n, globals()[n])
connector.threadsafety, connector.apilevel, connector.paramstyle = 1, '2.0', 'pyformat'
mysql.connector = connector
sys.modules['mysql'], sys.modules['mysql.connector'] = mysql, connector

pandas = types.ModuleType('pandas')


class Chunk:
    def __init__(self, rows):
        import numpy as np
        self.values = np.array(rows, dtype=object)


def read_csv(path, chunksize=None, header=None, **k):
    import csv
    def num(x):
        for t in (int, float):
            try:
                return t(x)
            except ValueError:
                pass
        return x
    rows = [[num(x) for x in r] for r in csv.reader(open(path, newline=''))]
    for i in range(0, len(rows), chunksize or len(rows)):
        yield Chunk(rows[i:i + (chunksize or len(rows))])


pandas.read_csv = read_csv
sys.modules['pandas'] = pandas

KEY = 'k%s'
HOMO = [787659527, 1023624989]


def col(name, typ, plain=False, ciphers=(), prefix=''):
    c = {'enc-cols': {k: 'P%s%s_%s' % (prefix, name, k.replace('-', '')) for k in ciphers}, 'plaintext': plain, 'type': typ,
         'key': '' if plain else 'key of ' + prefix + name}
    if 'arithmetic' in ciphers:
        c['homomorphic_key'] = HOMO
    if 'sm4' in ciphers:
        c['sm4_key'] = 'sm4 of ' + prefix + name
    return c


def tables():
    t = {'id': col('id', 'int', True), 'note': col('note', 'varchar', True),
         'age': col('age', 'int', ciphers=('order-preserving', 'symmetric')),
         'pay': col('pay', 'int', ciphers=('order-preserving', 'symmetric', 'fuzzy', 'arithmetic')),
         'card': col('card', 'int', ciphers=('order-preserving', 'symmetric', 'sm4')),
         'name': col('name', 'varchar', ciphers=('symmetric', 'fuzzy')),
         'code': col('code', 'char', ciphers=('symmetric',)),
         'rate': col('rate', 'float', ciphers=('order-preserving', 'symmetric')),
         'mass': col('mass', 'double', ciphers=('order-preserving', 'symmetric'))}
    s = {'note': col('note', 'varchar', True, prefix='s_'),
         'age': col('age', 'int', ciphers=('order-preserving', 'symmetric', 'arithmetic'), prefix='s_'),
         'name': col('name', 'varchar', ciphers=('symmetric', 'fuzzy'), prefix='s_')}
    return {'shop': {'person': {'anonymous': 'PHYS_PERSON', 'columns': t, 'comment': None},
                     'sale': {'anonymous': 'PHYS_SALE', 'columns': s, 'comment': None}}}


def request(**over):
    r = {'host': 'h', 'port': 3306, 'db': 'shop', 'user': 'u', 'password': 'p'}
    r.update(over)
    return r


def gateway(meta=None):
    from scheduler.schema.metadata import Delta
    d = Delta()
    Delta.meta = meta if meta is not None else tables()
    from scheduler.backend import execution_context
    return execution_context


def backend():
    """the statements the backend executed"""
    return [e[3] for e in EVENTS if e[2] == 'execute' and e[1] != 'eulerdb_schema']


def physical(sql, db='shop'):
    """the rewritten statement"""
    from scheduler.handers.rewrite_hander import Rewriter
    gateway()
    return Rewriter(db).rewrite_query(sql)[0]


def rewriter(sql, db='shop'):
    from scheduler.handers.rewrite_hander import Rewriter
    gateway()
    r = Rewriter(db)
    return r, r.rewrite_query(sql)


def web():
    """starts the application on the loopback interface; returns ask(path, body as JSON, form or None) -> (status, text)"""
    import asyncio, json, threading, logging, urllib.request, urllib.parse, urllib.error
    gateway()
    import service, tornado.web, tornado.httpserver, tornado.netutil
    logging.disable(logging.CRITICAL)
    ports, ready = [], threading.Event()
    def serve():
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        sockets = tornado.netutil.bind_sockets(0, '127.0.0.1')
        server = tornado.httpserver.HTTPServer(tornado.web.Application(handlers=service.HANDLERS))
        server.add_sockets(sockets)
        ports.append(sockets[0].getsockname()[1])
        loop.call_soon(ready.set)
        loop.run_forever()
    threading.Thread(target=serve, daemon=True).start()
    ready.wait(30)
    opener = urllib.request.build_opener(urllib.request.ProxyHandler({}))
    def ask(path, body=None, form=None, timeout=60):
        data = json.dumps(body).encode() if body is not None else urllib.parse.urlencode(form).encode() if form else None
        try:
            with opener.open('http://127.0.0.1:%d%s' % (ports[0], path), data, timeout) as r:
                return r.status, r.read().decode()
        except urllib.error.HTTPError as e:
            return e.code, e.read().decode()
    return ask
