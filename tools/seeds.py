"""planted bugs: id -> (property, [(file, old, new)], needs, what it breaks, demonstration)"""
CL = 'scheduler/handers/clause/'
REM = 'scheduler/backend/executors/remote_executor.py'
MD = 'scheduler/schema/metadata.py'
DEC = 'scheduler/handers/decrypt_handler.py'
CTX = 'scheduler/backend/execution_context.py'
RW = 'scheduler/handers/rewrite_hander.py'
TB = 'scheduler/handers/table.py'
ENC = 'scheduler/crypto/encrypt.py'
SEEDS = {}
SEEDS['c01-short-fuzzy'] = ('C01', [(CL + 'sql_values.py',
    "            return {'value': {'literal': encrypt.FuzzyCipher(key).encrypt(str(value))}}\n",
    "            text = str(value)\n            return {'value': {'literal': encrypt.FuzzyCipher(key).encrypt(text) if len(text) > 1 else text}}\n")],
    'a one-character or empty value in a column with a fuzzy cipher',
    'the value is stored in clear in the fuzzy physical column',
    '''
sql = physical("insert into person(id, name) values (1, 'Z')")
assert "'Z'" not in sql, sql
''')
SEEDS['c02-key-cache'] = ('C02', [(CL + 'sql_values.py',
    "        key = self.db_meta[table]['columns'][col]['key']\n        if isinstance",
    "        key = self.__dict__.setdefault('keys', {}).setdefault(\n            (table, self.db_meta[table]['columns'][col]['type']), self.db_meta[table]['columns'][col]['key'])\n        if isinstance")],
    'one INSERT naming two encrypted columns of the same type',
    'the second column is encrypted under the key of the first',
    '''
import scheduler.crypto.encrypt as en
sql = physical("insert into person(id, age, card) values (1, 20, 77)")
assert en.AESCipher('key of card').encrypt('77') in sql, sql
''')
SEEDS['c03-set-skips'] = ('C03', [(CL + 'sql_set.py',
    "for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():",
    "for k1, v1 in sorted(enc_table_meta['columns'][k]['enc-cols'].items(), reverse=True)[:3]:")],
    'an UPDATE of a column with four physical columns',
    'one physical column keeps the old value: sums are computed from it',
    '''
sql = physical("update person set pay = 12 where id = 1")
for c in ('orderpreserving', 'symmetric', 'fuzzy', 'arithmetic'):
    assert 'Ppay_' + c in sql, sql
''')
SEEDS['c04-third-conjunct'] = ('C04', [(CL + 'sql_where.py',
    "return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v]}",
    "return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v[:2]] + v[2:]}")],
    'a WHERE with three or more conditions joined by AND or OR',
    'the third condition goes to the backend unrewritten, with its constant in clear',
    '''
sql = physical("select id from person where id = 1 and age = 2 and name = 'bob'")
assert "'bob'" not in sql, sql
''')
SEEDS['c05-like-anchor'] = ('C05', [(CL + 'sql_where.py',
    '                partial_list = where_value.split("%")\n',
    '                partial_list = where_value.rstrip("%").split("%")\n')],
    'a LIKE pattern ending in %', 'the pattern matches only at the end of the value',
    '''
sql = physical("select id from person where name like 'abcdef%'")
import re
assert re.search("LIKE '[^']*%'", sql), sql
''')
SEEDS['c06-left-join'] = ('C06', [(CL + 'sql_from.py',
    "                    result[key] = self.db_meta[value]['anonymous']\n",
    "                    result[key.split()[-1]] = self.db_meta[value]['anonymous']\n")],
    'a LEFT or RIGHT JOIN', 'an inner join is executed, rows without partner are lost',
    '''
sql = physical("select person.name, sale.age from person left join sale on person.note = sale.note")
assert 'LEFT JOIN' in sql, sql
''')
SEEDS['c07-star-join'] = ('C07', [(CL + 'sql_select.py',
    "                    self.select_columns.append(select_column_name + k)\n                    self.select_types.append(v['type'])\n",
    "                    self.select_columns.append(select_column_name + k)\n                    if v['type'] not in self.select_types or not v['plaintext']:\n                        self.select_types.append(v['type'])\n")],
    'SELECT * of a table with a plain column whose type occurred before',
    'the list of types is shorter than the list of columns and shifted',
    '''
r, _ = rewriter("select * from person")
want = [c['type'] for c in tables()['shop']['person']['columns'].values()]
meta = tables()
meta['shop']['person']['columns']['remark'] = col('remark', 'varchar', True)
gateway(meta)
from scheduler.handers.rewrite_hander import Rewriter
r = Rewriter('shop')
r.rewrite_query("select * from person")
assert len(r.select.select_types) == len(r.select.select_columns), (r.select.select_types, r.select.select_columns)
''')
SEEDS['c08-cache'] = ('C08', [(DEC,
    "        self.result = []\n\n    def __repr__", "        self.result = []\n        self.decrypters = {}\n\n    def __repr__"),
    (DEC, '''        decrypter = {"symmetric": encrypt.AESCipher(key),
                     "order-preserving": encrypt.OPECipher(key),
                     "arithmetic": encrypt.HomomorphicCipher(homo_key)}
''', '''        if col_name not in self.decrypters:
            self.decrypters[col_name] = {"symmetric": encrypt.AESCipher(key),
                                         "order-preserving": encrypt.OPECipher(key),
                                         "arithmetic": encrypt.HomomorphicCipher(homo_key)}
        decrypter = self.decrypters[col_name]
''')],
    'a join answering columns of the same name of two tables', 'the second is decrypted with the key of the first',
    '''
import scheduler.crypto.encrypt as en
g = gateway()
ROWS.append([(en.AESCipher('key of name').encrypt('ann'), en.AESCipher('key of s_name').encrypt('bob'))])
res = g.invoke(request(), "select person.name, sale.name from person join sale on person.note = sale.note", None, True)
assert res[0] == [('ann', 'bob')], res
''')
SEEDS['c09-null-rows'] = ('C09', [(DEC,
    "            self.result.append(tuple(new_row))\n",
    "            if any(val is not None for val in new_row):\n                self.result.append(tuple(new_row))\n")],
    'an answer with a row of NULLs only', 'the row is dropped',
    '''
g = gateway()
ROWS.append([(None,), (None,)])
res = g.invoke(request(), "select name from person", None, True)
assert res[0] == [(None,), (None,)], res
''')
SEEDS['e01-fallback'] = ('E01', [(REM,
    '            enc_query, self.table = self.dispatch(query)\n            logger.info("Encrypt SQL:{}".format(enc_query))\n',
    '            try:\n                enc_query, self.table = self.dispatch(query)\n            except KeyError:\n                # a table that is not registered\n                enc_query, self.table = query, None\n            logger.info("Encrypt SQL:{}".format(enc_query))\n')],
    'a statement naming a column the metadata does not know', 'the client text is executed as it came, with its constants',
    '''
g = gateway()
try:
    g.invoke(request(), "insert into person(id, name, Age) values (1, 'bob', 3)", None, True)
except Exception:
    pass
assert not any('bob' in s for s in backend()), backend()
''')
SEEDS['e02-fetch'] = ('E02', [(REM,
    "            self.result = cursor.fetchall()\n",
    "            try:\n                self.result = cursor.fetchall()\n            except mysql.connector.Error as e:\n                logger.info(e)\n                self.result = []\n")],
    'the backend connection breaking while rows are fetched', 'the client gets an empty answer instead of an error',
    '''
g = gateway()
FAIL.append(lambda ev: OperationalError('gone') if ev[1] == 'shop' and ev[2] == 'fetch' else None)
try:
    res = g.invoke(request(), "select name from person", None, True)
except Exception:
    raise SystemExit(0)
raise AssertionError(res)
''')
SEEDS['e03-no-commit'] = ('E03', [(REM,
    "        else:\n            self.conn.commit()\n        logger.info(\"Execute",
    "        elif cursor.rowcount:\n            self.conn.commit()\n        logger.info(\"Execute")],
    'a driver reporting 0 rows for a statement that changed data (multi-table or replaced rows, deferred counts)',
    'the write is acknowledged and never committed',
    '''
g = gateway()
Cursor_init = Cursor.__init__
def init(self, conn):
    Cursor_init(self, conn)
    self.rowcount = 0
Cursor.__init__ = init
g.invoke(request(), "delete from person where id = 1", None, True)
assert [e for e in EVENTS if e[1] == 'shop' and e[2] == 'commit'], EVENTS
''')
SEEDS['e04-default-port'] = ('E04', [(REM,
    "        else:\n            connection = connection_pool[db_key]\n        return connection.connection()",
    "            connection_pool[conn_info['host'], conn_info['db']] = connection\n        else:\n            connection = connection_pool[db_key[0], db_key[2]]\n        return connection.connection()")],
    'three requests: user a, user b, user a again', 'user a works on a session of user b',
    '''
g = gateway()
for u in ('a', 'b', 'a'):
    g.invoke(request(user=u), "delete from person where id = 1", None, True)
conns = {e[0]: e[3]['user'] for e in EVENTS if e[2] == 'connect'}
users = [conns[e[0]] for e in EVENTS if e[2] == 'execute' and e[1] == 'shop' and e[3].startswith('DELETE')]
assert users == ['a', 'b', 'a'], users
''')
SEEDS['e06-shared-state'] = ('E06', [(CL + 'sql_select.py',
    "        self.select_columns = []\n        self.select_types = []\n        self.select_state = []\n",
    "        self.select_columns = []\n        self.select_types = []\n"),
    (CL + 'sql_select.py', "class SQLSelect(Rewriter):\n", "class SQLSelect(Rewriter):\n    select_state = []\n\n")],
    'two SELECTs in one process', 'the decryption of the second uses the column states of the first',
    '''
import scheduler.crypto.encrypt as en
g = gateway()
ROWS.append([(7,)])
g.invoke(request(), "select id from person", None, True)
ROWS.append([(en.AESCipher('key of name').encrypt('ann'),)])
res = g.invoke(request(), "select name from person", None, True)
assert res[0] == [('ann',)], res
''')
SEEDS['m01-nullable'] = ('M01', [(TB,
    "            columns_kv[col_name]['enc-cols'].update({\"arithmetic\": enc_col_name})\n",
    "            columns_kv[col_name]['enc-cols'].setdefault(\"symmetric\", enc_col_name)\n            columns_kv[col_name]['enc-cols'].setdefault(\"order-preserving\", enc_col_name)\n")],
    'a CREATE asking for an arithmetic column', 'the arithmetic column is created but never written nor read',
    '''
g = gateway()
cols = {'b': {'key': 'kk', 'fuzzy': False, 'arithmetic': True, 'homomorphic_key': HOMO}}
g.invoke(request(), "create table fresh (a int, b int)", cols, True)
from scheduler.schema.metadata import Delta
meta = Delta().meta['shop']['fresh']['columns']['b']['enc-cols']
assert set(meta) == {'order-preserving', 'symmetric', 'arithmetic'}, meta
''')
SEEDS['m02-drop-early'] = ('M02', [(REM,
    "            if query_type == QueryType.CREATE:\n",
    "            if isinstance(self.table, dict) and 'table' in self.table:\n")],
    'a DROP the backend rejects (a foreign key refers to the table)', 'the table is forgotten, its keys with it',
    '''
g = gateway()
FAIL.append(lambda ev: IntegrityError('referenced') if ev[1] == 'shop' and ev[2] == 'execute' else None)
try:
    g.invoke(request(), "drop table person", None, True)
except Exception:
    pass
from scheduler.schema.metadata import Delta
assert 'person' in Delta().meta['shop']
''')
SEEDS['m03-load'] = ('M03', [(MD,
    "            meta[db_name][table_name]['columns'].update(json.loads(col_info))\n",
    "            for col_name, info in json.loads(col_info).items():\n                meta[db_name][table_name]['columns'].setdefault(col_name.lower(), info)\n")],
    'a restart with a column whose name has capitals', 'the column is unknown, or another one takes its keys, after the restart',
    '''
g = gateway()
from scheduler.schema.metadata import Delta
g.invoke(request(), "create table fresh (a int, Bob int)", {'Bob': {'key': 'kk', 'fuzzy': False}}, True)
before = Delta().meta['shop']['fresh']['columns']
after = Delta.load_delta()['shop']['fresh']['columns']
assert before == after, (before, after)
''')
PURE = '''
from scheduler.crypto import encrypt as en
'''
OPE = 'scheduler/crypto/ope/ope.py'
SEEDS['c10-float-round'] = ('C10', [(ENC, "    if val_type == 'float':\n        return val / 10 ** 12\n",
    "    if val_type == 'float':\n        return round(val / 10 ** 12, 9)\n")],
    'a float with more than nine decimals', 'the last decimals are lost on reading', PURE + '''
x = 0.000000000123
assert abs(en.decode(str(en.encode(x, 'float')), 'float') - x) < 2e-12
''')
SEEDS['c11-trailing-blank'] = ('C11', [(ENC, '''.decode('utf8').rstrip("\\0")''', '''.decode('utf8').rstrip("\\0 ")''')],
    'a value ending in blanks', 'the trailing blanks are gone after decryption', PURE + '''
for x in ('abc', 'abc  ', '  abc', '1234567890123456', ''):
    assert en.AESCipher('k').decrypt(en.AESCipher('k').encrypt(x)) == x, x
''')
SEEDS['c11-sm4-charset'] = ('C11', [(ENC, "            raw = raw.encode('utf-8')\n", "            raw = raw.encode('utf-16-le' if len(raw) > 64 else 'utf-8')\n")],
    'a text longer than 64 characters in an sm4 column', 'the value decrypts to interleaved NULs', PURE + '''
for n in (1, 16, 64, 65, 200):
    assert en.SM4CipherBytes('k').decrypt(en.SM4CipherBytes('k').encrypt('z' * n)) == 'z' * n, n
''')
SEEDS['c12-key-prefix'] = ('C12', [(ENC, '''class AESCipher:
    input = 'STRING'
    output = 'STRING'

    def __init__(self, key):
        self.key = bytes.fromhex(sha256(key.encode('utf8')).hexdigest())
''', '''class AESCipher:
    input = 'STRING'
    output = 'STRING'

    def __init__(self, key):
        self.key = bytes.fromhex(sha256(key[:32].encode('utf8')).hexdigest())
''')], 'two column keys that agree in their first 32 characters',
    'both columns are encrypted under the same key', PURE + '''
assert en.AESCipher('k' * 40 + 'a').encrypt('v') != en.AESCipher('k' * 40 + 'b').encrypt('v')
''')
SEEDS['c12-fixed-tail'] = ('C12', [(ENC, "                    result = result + self.cipher.encrypt(str(raw)[i: i+2])\n",
    "                    result = result + (self.cipher if i < 15 else AESCipher(str(i % 2))).encrypt(str(raw)[i: i+2])\n")],
    'a mixed text of more than 16 characters in a fuzzy column', 'the tail is encrypted under a key anybody knows', PURE + '''
v = 'a b c d e f g h i j k l m n o p'
a, b = en.FuzzyCipher('k').encrypt(v), en.FuzzyCipher('q').encrypt(v)
w = len(en.AESCipher('k').encrypt('a '))
assert not {a[i:i+w] for i in range(0, len(a), w)} & {b[i:i+w] for i in range(0, len(b), w)}
''')
SEEDS['c13-boundary'] = ('C13', [(OPE, '''        if ciphertext <= mid:
''', '''        if ciphertext < mid:
''')], 'decrypting a ciphertext equal to the middle of a range on its path', 'the value cannot be decrypted', PURE + '''
o = en.OPECipher('k')
for x in (-1, 0, 1, 2**40, -2**62 - 1, 2**62 - 1, -5):
    assert o.decrypt(o.encrypt(x)) == x, x
''')
SEEDS['c13-last-value'] = ('C13', [(OPE, '''        return self.start <= number <= self.end
''', '''        return self.start <= number < self.end
''')], 'the largest value of the input range', 'the largest value cannot be encrypted', PURE + '''
o = en.OPECipher('k')
assert o.encrypt(2**63 - 1) >= o.encrypt(2**63 - 2)
''')
SEEDS['c14-capped'] = ('C14', [(ENC, 'for i in range(len(raw)-2):', 'for i in range(min(len(raw)-2, 62)):')],
    'a value of more than 64 letters and digits', 'text beyond the 64th character is not found', PURE + '''
f = en.FuzzyCipher('k')
assert f.encrypt('xyz') in f.encrypt('a' * 70 + 'xyz')
''')
SEEDS['c14-class'] = ('C14', [(ENC, 'if raw.isalpha() or raw.isalnum() or raw.isdigit():', 'if raw.isalnum() and not raw.isdigit():')],
    'a search for digits in a value of letters and digits', 'the search text is cut into pairs, the value into triples: no match', PURE + '''
f = en.FuzzyCipher('k')
assert f.encrypt('1234') in f.encrypt('ab1234')
assert f.encrypt('1234') in f.encrypt('001234')
''')
SEEDS['c17-mean'] = ('C17', [(ENC, '            return self.sk.decrypt(enc_number) / len(enc_value_list)\n',
    '            return self.sk.decrypt(enc_number) / max(len(enc_value_list) - enc_value_list.count(\'1\'), 1) if len(enc_value_list) < 3 else self.sk.decrypt(enc_number) // len(enc_value_list)\n')],
    'the mean of three or more values whose sum is not divisible', 'the mean is rounded down', PURE + '''
h = en.HomomorphicCipher([787659527, 1023624989])
c = [h.encrypt(v) for v in (1, 2, 5)]
assert abs(h.decrypt(','.join(c) + ',AVG') - 8 / 3) < 1e-9
assert h.decrypt(','.join(c) + ',SUM') == 8
''')
FM = 'sql_parsing/formatting.py'
SEEDS['s01-three-terms'] = ('S01', [(FM,
    "            if prec >= op_prec:\n                return method(value, op_prec)\n",
    "            if prec >= op_prec or isinstance(value, list) and len(value) > 2:\n                return method(value, op_prec)\n")],
    'an operator with three operands (a + b + c) inside a tighter one', 'its parentheses are lost: 2 * (a + b + c) becomes 2 * a + b + c',
    '''
from sql_parsing import parse_mysql, format
for q in ('SELECT (a + b + c) * 2 FROM t', 'SELECT a FROM t WHERE (a = 1 OR b = 2 OR c = 3) AND d = 4'):
    assert '(' in format(parse_mysql(q), ansi_quotes=False), format(parse_mysql(q))
''')
SEEDS['s01-missing'] = ('S01', [(FM,
    '        return "{0} IS NULL".format(self.dispatch(value, precedence["is"]))\n',
    '        return "{0} IS NULL".format(self.dispatch(value, precedence["and"]))\n')],
    'IS NULL applied to a condition joined by AND or NOT', 'the test for NULL applies to the last part only',
    '''
from sql_parsing import parse_mysql, format
t = format(parse_mysql('SELECT a FROM t WHERE (b = 1 AND c = 2) IS NULL'), ansi_quotes=False)
assert '(' in t, t
''')
SEEDS['s02-limit-zero'] = ('S02', [(FM,
    "            for clause in ordered_clauses\n            if clause in json\n",
    "            for clause in ordered_clauses\n            if json.get(clause)\n")],
    'a LIMIT of 0', 'the clause is left out and every row is returned',
    '''
from sql_parsing import parse_mysql, format
t = format(parse_mysql('SELECT a FROM t ORDER BY a LIMIT 0'), ansi_quotes=False)
assert 'LIMIT' in t, t
''')
SEEDS['s02-set-order'] = ('S02', [(FM,
    "    _except = Operator(\"except\")\n",
    "    _except = Operator(\"minus\")\n")],
    'a statement with EXCEPT', 'it is sent with a keyword MySQL does not know',
    '''
from sql_parsing import format
t = format({'except': [{'select': {'value': 'a'}, 'from': 't'}, {'select': {'value': 'a'}, 'from': 's'}]}, ansi_quotes=False)
assert 'EXCEPT' in t, t
''')
SEEDS['s03-trailing-quote'] = ('S03', [(FM,
    "        identifier = identifier.replace(quote, 2 * quote)\n",
    "        identifier = identifier.rstrip(quote).replace(quote, 2 * quote)\n")],
    'a name ending in a backquote', 'another name is sent', '''
from sql_parsing import format
t = format({'select': {'value': 'a`'}, 'from': 't'}, ansi_quotes=False)
assert '`a```' in t, t
''')
SEEDS['s03-list'] = ('S03', [(FM,
    "                self._literal(v, precedence[\"literal\"]) for v in json\n",
    "                self._literal(v, precedence[\"literal\"]) if not str(v).isdigit() else str(v) for v in json\n")],
    'a string of digits in an IN list', 'it is sent as a number: leading zeros no longer count and the column is compared as a number',
    '''
from sql_parsing import format
t = format({'select': '*', 'from': 't', 'where': {'in': ['a', {'literal': ['007', 'x']}]}}, ansi_quotes=False)
assert "'007'" in t, t
''')
UT = 'sql_parsing/utils.py'
SEEDS['s04-nested-sub'] = ('S04', [(UT,
    '    if op in {"add", "mul", "and", "or"}:\n', '    if op in {"add", "mul", "sub", "and", "or"}:\n')],
    'a difference whose right operand is a difference in parentheses', 'a - (b - c) is read as a - b - c',
    '''
from sql_parsing import parse_mysql
assert parse_mysql('SELECT a - (b - c) FROM t')['select']['value'] == {'sub': ['a', {'sub': ['b', 'c']}]}
''')
SEEDS['s04-mixed-list'] = ('S04', [(UT,
    '        candidate = {"literal": [r["literal"] if is_data(r) else r for r in tokens]}\n',
    '        candidate = {"literal": [r["literal"] if is_data(r) else r for r in tokens if r]}\n')],
    'an IN list of numbers and strings with a 0', 'the 0 is dropped from the list',
    '''
from sql_parsing import parse_mysql
assert parse_mysql("SELECT a FROM t WHERE a IN (0, 'x')")['where'] == {'in': ['a', {'literal': [0, 'x']}]}
''')
SEEDS['s04-null-test'] = ('S04', [(UT,
    '        if tokens[2] is SQL_NULL:\n            return Call("exists", tokens[0], {})\n        return Call("is_not", ',
    '        if tokens[2] is SQL_NULL or tokens[2] is True:\n            return Call("exists", tokens[0], {})\n        return Call("is_not", ')],
    'a IS NOT TRUE', 'it is read as a IS NOT NULL',
    '''
from sql_parsing import parse_mysql
w = parse_mysql('SELECT a FROM t WHERE a IS NOT TRUE')['where']
assert w == {'is_not': ['a', True]}, w
''')
SEEDS['s05-else'] = ('S05', [(UT,
    '        acc.append(Call("when", [Call("eq", [value] + c.args, {})], c.kwargs))\n',
    '        arg = c.args[0]\n        test = Call("missing", [value], {}) if scrub(arg) is SQL_NULL else Call("eq", [value, arg], {})\n'
    '        acc.append(Call("when", [test], c.kwargs))\n')],
    'CASE a WHEN NULL THEN ...', 'the branch, which never applies, is taken for the rows where a is NULL',
    '''
from sql_parsing import parse_mysql, format
t = format(parse_mysql('SELECT CASE a WHEN NULL THEN 1 ELSE 2 END FROM t'), ansi_quotes=False)
assert 'IS NULL' not in t, t
''')
SEEDS['s05-union-all'] = ('S05', [(UT,
    '            if op == last_union and "union" in op:\n                acc[op] = acc[op] + [so]\n',
    '            if last_union and "union" in last_union and "union" in op:\n                acc[last_union] = acc[last_union] + [so]\n                continue\n')],
    'UNION and UNION ALL in one statement', 'the second operator is read as the first one',
    '''
from sql_parsing import parse_mysql, format
t = format(parse_mysql('SELECT a FROM t UNION SELECT a FROM s UNION ALL SELECT a FROM r'), ansi_quotes=False)
assert 'UNION ALL' in t, t
''')
SEEDS['s05-values'] = ('S05', [(UT,
    '        if all(flatten(values)):\n', '        if all(map(any, values)):\n')],
    'an INSERT of several rows with an expression that is no constant', 'NULL is inserted instead of the expression',
    '''
from sql_parsing import parse_mysql, format
t = format(parse_mysql('INSERT INTO t (a, b) VALUES (1, now()), (2, 3)'), ansi_quotes=False)
assert 'NOW()' in t, t
''')
PD = 'dbutils/pooled_db.py'
SD = 'dbutils/steady_db.py'
DRV = '''
from dbutils.pooled_db import PooledDB, TooManyConnections
log, broken = [], set()


class Drv:
    threadsafety = 2
    class OperationalError(Exception): pass
    InterfaceError = InternalError = OperationalError
    class Cur:
        def __init__(self, con): self.con = con
        def execute(self, q):
            log.append(('execute', self.con, q))
            if (self.con, 'execute') in broken or 'execute' in broken: raise Drv.OperationalError('lost')
        callproc = executemany = execute
        def close(self): pass
    class Con:
        def __init__(self): self.open = True
        def cursor(self, *a): return Drv.Cur(self)
        def rollback(self): log.append(('rollback', self))
        def commit(self):
            log.append(('commit', self))
            if 'commit' in broken: raise Drv.OperationalError('lost')
        def close(self): self.open = False
        def ping(self, *a): return (self, 'ping') not in broken
    @staticmethod
    def connect(*a, **k):
        if 'connect' in broken: raise Drv.OperationalError('down')
        log.append(('connect',))
        return Drv.Con()


def raw(c): return c._con._con
'''
SEEDS['d01-double-close'] = ('D01', [(PD,
    "            self._pool.cache(self._con)\n            self._con = None\n",
    "            con, self._con = self._con, None\n            self._pool.cache(con)\n            if con._closed:\n                con = None\n            self._con = con\n")],
    'a connection that is closed twice, e.g. by the handler and by its finalizer',
    'two requests get the same session', DRV + '''
p = PooledDB(Drv)
a = p.connection()
a.close()
a.close()
b, c = p.connection(), p.connection()
assert raw(b) is not raw(c)
''')
SEEDS['d02-reset'] = ('D02', [(SD,
    "        if not self._closed and (force or self._transaction):\n",
    "        if not self._closed and (force and self._usage or self._transaction):\n")],
    'a session used without a counted statement (through a cursor that failed, or a setting made on it)',
    'what the last user left undone becomes part of the transaction of the next', DRV + '''
p = PooledDB(Drv)
a = p.connection()
c = a.cursor()
broken.add('execute')
try: c.execute('q')
except Exception: pass
r = raw(a)
del log[:]
a.close()
assert ('rollback', r) in log, log
''')
SEEDS['d02-ping'] = ('D02', [(SD,
    "            if reconnect and not self._transaction:\n",
    "            if reconnect and not self._transaction and self._usage:\n")],
    'an idle session that dies before its first statement', 'the dead session is handed out', DRV + '''
p = PooledDB(Drv, mincached=1)
idle = p._idle_cache[0]._con
broken.add((idle, 'ping'))
a = p.connection()
assert raw(a) is not idle
''')
SEEDS['d03-count-first'] = ('D03', [(PD,
    "                except IndexError:  # else get a fresh connection\n                    con = self.steady_connection()\n                else:\n                    con._ping_check()  # check connection\n                con = PooledDedicatedDBConnection(self, con)\n                self._connections += 1\n",
    "                except IndexError:  # else get a fresh connection\n                    self._connections += 1\n                    con = self.steady_connection()\n                else:\n                    self._connections += 1\n                    con._ping_check()  # check connection\n                con = PooledDedicatedDBConnection(self, con)\n")],
    'a failing connection attempt of a pool with maxconnections', 'the place is lost for ever', DRV + '''
p = PooledDB(Drv, maxconnections=1)
broken.add('connect')
try: p.connection()
except Drv.OperationalError: pass
broken.clear()
p.connection()
''')
SEEDS['d03-spurious'] = ('D03', [(PD,
    "        if not self._blocking:\n            raise TooManyConnections\n        self._lock.wait()\n",
    "        if not self._blocking:\n            raise TooManyConnections\n        if not self._lock.wait(5):\n            self._connections -= 1\n")],
    'a request that waits longer than five seconds', 'more sessions than allowed are in use', DRV + '''
p = PooledDB(Drv, maxconnections=1, blocking=True)
a = p.connection()
waits = []
def wait(t=None):
    waits.append(1)
    if len(waits) > 2: raise KeyboardInterrupt
    return False
p._lock.wait = wait
try:
    p.connection()
    assert False, 'two sessions in use'
except KeyboardInterrupt:
    pass
''')
SEEDS['d04-callproc'] = ('D04', [(SD,
    "            transaction = con._transaction\n            if not transaction:\n                con._ping_check(4)\n",
    "            transaction = con._transaction and execute\n            if not transaction:\n                con._ping_check(4)\n")],
    'a stored procedure called inside a transaction, on a session that fails', 'the call is repeated outside the transaction', DRV + '''
p = PooledDB(Drv)
a = p.connection()
a.begin()
c = a.cursor()
r = raw(a)
broken.add((r, 'execute'))
del log[:]
try: c.callproc('f')
except Drv.OperationalError: pass
assert len([l for l in log if l[0] == 'execute']) == 1, log
''')
SEEDS['d04-commit'] = ('D04', [(SD,
    "                self._store(con)\n            raise error  # re-raise the original error\n\n    def rollback(self):",
    "                self._store(con)\n            if not self._con or con is None:\n                raise error  # re-raise the original error\n\n    def rollback(self):"),
    (SD, "        self._transaction = False\n        try:\n            self._con.commit()\n        except self._failures as error:  # cannot commit\n",
     "        self._transaction = False\n        con = None\n        try:\n            self._con.commit()\n        except self._failures as error:  # cannot commit\n")],
    'a commit that fails on a session that can be reopened', 'the failure is not reported: the transaction is lost', DRV + '''
p = PooledDB(Drv)
a = p.connection()
a.begin()
a.cursor().execute('q')
broken.add('commit')
try:
    a.commit()
    assert False, 'the commit failed and nobody was told'
except Drv.OperationalError:
    pass
''')
SEEDS['m05-batches'] = ('M05', [(MD,
    "                rows.append((db_name, 'mysql', table_name, table_anonymous, col_str, ''))\n",
    "                rows = rows + [(db_name, 'mysql', table_name, table_anonymous, col_str, '')]\n"
    "                if len(rows) == 200:\n"
    "                    with store_lock:\n"
    "                        self.write_store(lambda cu: cu.executemany(insert_sql, rows))\n"
    "                    rows = []\n")],
    'a CREATE of more than 200 columns and a store failing in the second batch',
    'the columns of the first batch stay in the store: after a restart the table is known with a part of its columns',
    '''
g = gateway()
seen = []
def full(ev):
    if ev[1] == 'eulerdb_schema' and ev[2] == 'execute':
        seen.append(ev)
        return OperationalError('disk full') if len(seen) == 230 else None
FAIL.append(full)
try:
    g.invoke(request(), "create table fresh (%s)" % ', '.join('c%d int' % i for i in range(250)), {}, True)
except Exception:
    pass
FAIL.clear()
from scheduler.schema.metadata import Delta
assert 'fresh' not in Delta.load_delta().get('shop', {})
''')
SEEDS['m05-load-error'] = ('M05', [(MD,
    "        cu.execute(\"select * from p_db_meta\")\n        db_meta = cu.fetchall()\n",
    "        try:\n            cu.execute(\"select * from p_db_meta\")\n            db_meta = cu.fetchall()\n"
    "        except Exception:\n            # first start: nothing is stored yet\n            db_meta = []\n")],
    'a store that does not answer while the gateway starts',
    'the gateway runs with an empty schema: existing tables are created again with other keys',
    '''
FAIL.append(lambda ev: OperationalError('lost') if ev[1] == 'eulerdb_schema' and ev[2] == 'execute' else None)
try:
    from scheduler.schema.metadata import Delta
    d = Delta()
except Exception:
    d = None
assert d is None, d.meta
''')
SEEDS['m05-reconnect'] = ('M05', [(MD,
    "    except:\n        _db_conn = mysql.connector.connect(\n            host=config['meta']['mysql'][\"host\"],\n",
    "    except:\n        _db_conn = mysql.connector.connect(\n            autocommit=True, host=config['meta']['mysql'][\"host\"],\n")],
    'a lost connection to the store, reconnected, and a store failing between two columns',
    'the columns written before the failure stay in the store',
    '''
g = gateway()
Connection.ping = lambda self, *a, **k: (_ for _ in ()).throw(OperationalError('gone')) if not self.kw.get('later') else None
inner = Cursor.execute
def execute(self, sql, args=None):
    inner(self, sql, args)
    if self.connection.kw.get('autocommit'):
        self.connection.commit()
Cursor.execute = execute
seen = []
def full(ev):
    if ev[1] == 'eulerdb_schema' and ev[2] == 'execute':
        seen.append(ev)
        return OperationalError('disk full') if len(seen) == 2 else None
FAIL.append(full)
try:
    g.invoke(request(), "create table fresh (a int, b int, c int)", {}, True)
except Exception:
    pass
FAIL.clear()
from scheduler.schema.metadata import Delta
assert 'fresh' not in Delta.load_delta().get('shop', {})
''')

HA, CO, EX = 'handler.py', 'controller/rewriter.py', 'scheduler/backend/execution_context.py'
SEEDS['m07-comment-null'] = ('M07', [(TB, "        if 'nullable' in col:\n", "        if 'nullable' in col and not col.get('comment'):\n")],
    'a CREATE TABLE with a NOT NULL column that has a comment',
    'the column of the backend takes NULL',
    """
g = gateway()
g.invoke(request(), "create table fresh (a int not null comment 'x', b int not null)", {}, True)
sql = [x for x in backend() if x.upper().startswith('CREATE')][0].upper()
assert sql.count('NOT NULL') == 2, sql
""")
SEEDS['m07-key-order'] = ('M07', [(TB, "    for i in columns:\n        feature_info = columns_info.get(i, {})", "    for i in sorted(columns):\n        feature_info = columns_info.get(i, {})")],
    'a foreign key of two columns whose names sort otherwise than the ones they refer to',
    'the columns of the key are paired with other columns than declared',
    """
g = gateway()
g.invoke(request(), "create table base (a int, b int, c int, primary key (a, b))", {}, True)
g.invoke(request(), "create table fresh (x int, y int, foreign key (y, x) references base (a, b))", {}, True)
sql = backend()[-1].replace(' ', '').lower()
assert 'foreignkey(y,x)' in sql and '(a,b)' in sql, sql
""")
SEEDS['e07-quiet-error'] = ('E07', [(HA, "            raise HTTPError(404, \"No results\")\n\n    @staticmethod\n    def generate_table(",
    "            raise HTTPError(200 if isinstance(e, LookupError) else 404, \"No results\")\n\n    @staticmethod\n    def generate_table(")],
    'a /create_table request that names a data source which does not exist',
    'the answer is a success although no table was created',
    """
ask = web()
col = {'name': 'a', 'type': 'int', 'length': '0', 'encryption': 'false', 'fuzzy': 'false', 'token': ''}
body = {'selectedJdbcDataSource': {'value': 7}, 'dataSource': [col], 'count': 1, 'table_name': 'fresh'}
assert ask('/create_table', body)[0] == 200
body.update(selectedJdbcDataSource={'value': 8}, table_name='fresh2')
assert ask('/create_table', body)[0] >= 400
""")
SEEDS['e07-empty-store'] = ('E07', [(CO, "        if result:\n            return {'encrypt_sql': result}\n        else:\n            return {'encrypt_sql': ''}", "        return {'encrypt_sql': result or ''}"),
    (CO, "        result = execution_context.encrypt_sql(self.query_info, self.query_info['query'])\n", "        try:\n            result = execution_context.encrypt_sql(self.query_info, self.query_info['query'])\n        except KeyError:\n            result = None\n")],
    'an /encrypt_sql request for a statement on a table the gateway does not know',
    'the answer is a success with an empty statement',
    """
ask = web()
assert ask('/encrypt_sql', {'sqlQuery': 'select age from person;', 'jdbcDataSourceId': 7})[0] == 200
assert ask('/encrypt_sql', {'sqlQuery': 'select age from persona;', 'jdbcDataSourceId': 7})[0] >= 400
""")
SEEDS['e10-default-host'] = ('E10', [(CO, "        self.query_info['port'] = port\n", "        self.query_info.setdefault('port', port)\n")],
    'a /query_jar request that sends a port of its own',
    'the statement is run on another server port than the configured one',
    """
ask = web()
ROWS[:] = [[(1,)]] * 4
ask('/query_jar', form={'db': 'shop', 'user': 'u', 'password': 'p', 'query': 'select id from person', 'port': '9999'})
kw = [e[3] for e in EVENTS if e[2] == 'connect' and e[1] == 'shop']
assert kw and int(kw[-1]['port']) == 3306, kw
""")
SEEDS['e10-null-columns'] = ('E10', [(HA, "                for k, v in zip(order_columns, result[0]):\n                    tmp", "                for k, v in list(zip(order_columns, result[0]))[:len(columns[0]) + 1]:\n                    tmp")],
    'an answer whose rows are two or more values longer than its header',
    'columns of the answer are not announced',
    """
import handler, json
r = handler.QueryHandler.format_result({'result': [(1, 'a', 2)], 'columns': [['x'], ['int']]})
assert [c['name'] for c in r['columns']] == list(json.loads(r['data'])[0]), r
""")
SEEDS['m06-last-table'] = ('M06', [(HA, "            if row[0] == table[\"name\"]:\n                table[\"columns\"].append(format_col)", "            if row[0].lower() == table[\"name\"].lower():\n                table[\"columns\"].append(format_col)")],
    'a database with two tables whose names differ in case only',
    'the schema lists the columns of both under one table',
    """
import handler, json
rows = [('Sale', json.dumps({'a': {'type': 'int', 'plaintext': True}})), ('sale', json.dumps({'b': {'type': 'int', 'plaintext': False}}))]
r = handler.SchemaHandler.format_result(rows)
names = [t['name'] for t in json.loads(r)]
assert names == ['Sale', 'sale'], r
""")
OVERLAP = '''
import threading
busy, clash, entered, go = set(), [], threading.Event(), threading.Event()
inner, fetch = Cursor.execute, Cursor.fetchall
def execute(self, sql, args=None):
    if self.connection.db == 'eulerdb_schema':
        if busy - {threading.get_ident()}:
            clash.append(sql)
        if sql.lower().startswith('select'):
            busy.add(threading.get_ident())
            entered.set()
            go.wait(10)
            busy.discard(threading.get_ident())
    inner(self, sql, args)
Cursor.execute = execute
'''
SEEDS['e08-refresh'] = ('E08', [(REM, "        self.conn = self.connect_db(conn_info)\n        self.result = None\n        self.encrypted_cols = None\n        self.rewriter = None\n        self.meta = Delta()\n        self.table = None\n\n    @staticmethod\n    def connect_db",
    "        self.conn = self.connect_db(conn_info)\n        self.result = None\n        self.encrypted_cols = None\n        self.rewriter = None\n        self.meta = delta = Delta()\n        delta.meta = delta.meta if conn_info['db'] in delta.meta else delta.load_delta()\n        self.table = None\n\n    @staticmethod\n    def connect_db")],
    'a request for a database the gateway knows no table of, while another one creates a table',
    'both use the connection to the metadata store at once',
    OVERLAP + '''
g = gateway({'shop': {}})
def create():
    g.invoke(request(), "create table fresh (a int)", {}, True)
def look():
    try:
        g.invoke(request(db='other'), "select a from fresh", None, True)
    except Exception:
        pass
u = threading.Thread(target=look); u.start()
entered.wait(5)
t = threading.Thread(target=create); t.start(); t.join(3)
go.set(); t.join(20); u.join(20)
assert not clash, clash
''')
SEEDS['e08-forget'] = ('E08', [(EX, "    id_sql_map[curr_id] = [select_columns, select_types, db_meta, table, select_state]\n",
    "    if len(id_sql_map) > 1000:\n        id_sql_map.clear()\n    id_sql_map.update({curr_id: [select_columns, select_types, db_meta, table, select_state]})\n")],
    'a client that decrypts its rows after a thousand other statements were rewritten',
    'the statement a client waits to decrypt is forgotten because of the requests of others',
    '''
g = gateway()
first = g.encrypt_sql2('shop', 'select id from person')[2]
state = g.id_sql_map[first]
for i in range(1500):
    g.id_sql_map['other%d' % i] = state
g.encrypt_sql2('shop', 'select id from person')
assert g.decrypt_data({'rows': [[1]]}, first)
''')
SEEDS['e09-inline'] = ('E09', [(HA, "        c_e = ControllerDecrypt(kwargs)\n        res = c_e.do_convert()\n        return res\n\n\n    @gen.coroutine\n    def post(self, *args, **kwargs):\n        try:\n            result = yield self._post(*args, **kwargs)\n            self.write(result)",
    "        return ControllerDecrypt(kwargs)\n\n\n    @gen.coroutine\n    def post(self, *args, **kwargs):\n        try:\n            c_e = yield self._post(*args, **kwargs)\n            self.write(c_e.do_convert())")],
    'a /decrypt_data request with many rows beside other requests',
    'its rows are decrypted on the event loop, which serves nobody meanwhile',
    '''
import threading
ask = web()
from scheduler.backend import execution_context as x
seen = []
def decrypt_data(data, query_id):
    seen.append(threading.current_thread().name)
    return {'columns': [], 'rows': data}
x.decrypt_data = decrypt_data
def loop(data, query_id):
    return decrypt_data(data, query_id)
ask('/decrypt_data', {'query_id': 'q', 'data': [[1]]})
assert seen and 'Pool' in seen[0], seen
''')
SEEDS['c16-sm4'] = ('C16', [(CL + 'sql_where.py',
    "                        col_name = col_name if col['plaintext'] else col['enc-cols'][cipher]\n",
    "                        col_name = col_name if col['plaintext'] else col['enc-cols'].get('sm4', col['enc-cols'][cipher])\n"),
    (CL + 'sql_where.py', "                        col_name1 = col_name1 if col1['plaintext'] else col1['enc-cols'][cipher]\n",
    "                        col_name1 = col_name1 if col1['plaintext'] else col1['enc-cols'].get('sm4', col1['enc-cols'][cipher])\n")],
    'a join over columns of the same key one of which is also stored with SM4', 'an SM4 ciphertext is compared with an AES one',
    '''
meta = tables()
for t in ('person', 'sale'):
    meta['shop'][t]['columns']['name'] = col('name', 'varchar', ciphers=('symmetric', 'sm4')[:1 + (t == 'sale')], prefix=t)
    meta['shop'][t]['columns']['name']['key'] = 'one key'
gateway(meta)
from scheduler.handers.rewrite_hander import Rewriter
sql = Rewriter('shop').rewrite_query("select person.id from person join sale on person.name = sale.name")[0]
assert sql.count('symmetric') == 2 and 'sm4' not in sql, sql
''')
SEEDS['c16-or-dropped'] = ('C16', [(CL + 'sql_where.py',
    "                    return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v]}\n",
    "                    return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v\n                                if col or len(v) < 3 or 'eq' in a_v]}\n")],
    'a join condition of three conjuncts one of which is an OR', 'the OR is dropped, more rows match',
    '''
gateway(tables())
from scheduler.handers.rewrite_hander import Rewriter
sql = Rewriter('shop').rewrite_query("select person.id from person join sale on person.note = sale.note and "
    "sale.note = person.note and (person.note = sale.note or person.note = sale.note)")[0]
assert ' OR ' in sql, sql
''')
SEEDS['e12-once'] = ('E12', [('scheduler/backend/execution_context.py',
    "    [select_columns, select_types,  db_meta, table, select_state] = id_sql_map[curr_id]\n",
    "    [select_columns, select_types,  db_meta, table, select_state] = id_sql_map.pop(curr_id)\n")],
    'the rows of a converted statement are decrypted in two pieces', 'the second piece is refused, its rows are lost',
    '''
import scheduler.crypto.encrypt as en
g = gateway()
_, _, a = g.encrypt_sql2('shop', "select name, id from person")
for n in ('ann', 'bob'):
    res = g.decrypt_data({'rows': [[en.AESCipher('key of name').encrypt(n), 3]]}, a)
    assert res['rows'] == [[n, 3]], res
''')
LOAD = '''
import csv
import numpy
g = gateway()
from scheduler.backend.executors import remote_executor
class Chunk:
    def __init__(self, rows):
        self.values = numpy.array(rows, dtype=object)
def read_csv(path, chunksize=None, **kw):
    with open(path) as f:
        rows = list(csv.reader(f))
    return [Chunk(rows[i:i + chunksize]) for i in range(0, len(rows), chunksize)]
remote_executor.pd.read_csv = read_csv
def load(columns, text, table='person'):
    with open('load.csv', 'w') as f:
        f.write(text)
    g.batch_process(request(batch_process={'table': table, 'columns': columns, 'input': 'load.csv'}))
def written():
    return [e[3:5] for e in EVENTS if e[2] == 'execute' and e[1] != 'eulerdb_schema']
'''
SEEDS['c18-order'] = ('C18', [('scheduler/backend/executors/remote_executor.py',
    "        for col in columns:\n            if not columns_info[col]['plaintext']:\n",
    "        for col in sorted(columns, key=list(columns_info).index):\n            if not columns_info[col]['plaintext']:\n")],
    'a load whose columns are named in another order than they were declared in', 'values are written to the columns of others',
    LOAD + '''
load(['pay', 'note'], '7,abc\\n')
text, row = written()[0]
assert dict(zip(text.split('(')[1].split(')')[0].split(','), row))['note'] == 'abc', (text, row)
''')
SEEDS['c18-last-chunk'] = ('C18', [('scheduler/backend/executors/remote_executor.py',
    "            for idx, i in enumerate(enc_data):\n                cursor.execute(query, tuple(i))\n            self.conn.commit()\n",
    "            for idx, i in enumerate(enc_data):\n                cursor.execute(query, tuple(i))\n                if idx % 1000 == 999:\n                    self.conn.commit()\n")],
    'a file whose number of rows is not a multiple of 1000', 'the last rows are never committed',
    LOAD + '''
load(['pay', 'note'], '7,abc\\n' * 3)
last = [e[2] for e in EVENTS if e[1] != 'eulerdb_schema' and e[2] in ('execute', 'commit')]
assert last[-1] == 'commit', last
''')
SUMS = '''
from minisql import MySQL
from scheduler.crypto.encrypt import HomomorphicCipher, AESCipher
t = tables()
columns = t['shop']['person']['columns']
columns['bonus'] = col('bonus', 'int', ciphers=('order-preserving', 'symmetric', 'arithmetic'))
columns['bonus']['homomorphic_key'] = [900000011, 800000011]
g = gateway(t)
def enc(c, v):
    return None if v is None else int(HomomorphicCipher(columns[c]['homomorphic_key']).encrypt(v))
def row(id, note, pay, bonus=0):
    return {'id': id, 'note': note, 'Ppay_arithmetic': enc('pay', pay), 'Pbonus_arithmetic': enc('bonus', bonus)}
TABLE, SESSIONS = [], {}
plain = Cursor.execute
def execute(self, sql, args=None):
    if self.connection.db == 'eulerdb_schema':
        return plain(self, sql, args)
    event(self.connection, 'execute', sql, args)
    self.rows = SESSIONS.setdefault(self.connection.number, MySQL({'PHYS_PERSON': TABLE})).run(sql)
Cursor.execute = execute
def answer(q):
    return [list(map(float, r)) for r in g.invoke(request(), q, None, True)[0]]
TABLE[:] = [row(1, 'a', 10, 1), row(2, 'b', 20, 2), row(3, 'a', 35, 7)]
'''
MD = 'scheduler/schema/metadata.py'
RX = 'scheduler/backend/executors/remote_executor.py'
SEEDS['c19-sum-reset'] = ('C19', [(MD,
    "        cursor.execute('SET @rownr=0;')\n        cursor.execute('SET @sum=1;')\n",
    "        cursor.execute('SET @rownr=0, @sum=ifnull(@sum, 1);')\n")],
    'two encrypted columns summed in one statement, or two statements on one pooled session',
    'the second total starts from the first',
    SUMS + '''
assert answer('select sum(pay) from person') == [[65]]
assert answer("select sum(pay), sum(bonus) from person where note = 'a'") == [[45, 8]], answer("select sum(pay), sum(bonus) from person where note = 'a'")
''')
SEEDS['c19-modulus'] = ('C19', [(MD,
    "                n_square = (col_info['homomorphic_key'][0] * col_info['homomorphic_key'][1])**2\n",
    "                n_square = homo_enc_dict and max(homo_enc_dict.values()) or (col_info['homomorphic_key'][0] * col_info['homomorphic_key'][1])**2\n")],
    'a table with two encrypted columns that have different keys', 'the second column is summed modulo the key of the first',
    SUMS + '''
got = answer('select sum(pay), sum(bonus), avg(bonus) from person')
assert got == [[65, 10, 3.3333]], got
''')
SEEDS['c19-qualified'] = ('C19', [(RX,
    "            enc_query = Delta.modify_sum_query(enc_query, feature[0], use_cursor)\n",
    "            enc_query = Delta.modify_sum_query(enc_query, feature[0].split('.')[-1], use_cursor)\n")],
    'SUM of a column named with its table', 'the backend adds up the ciphertexts themselves',
    SUMS + '''
assert answer('select sum(pay) from person') == [[65]]
got = answer('select sum(person.pay) from person')
assert got == [[65]], got
''')
SEEDS['c19-both'] = ('C19', [(RX,
    "        for feature in set(sum_feature_name_list+avg_feature_name_list):\n",
    "        for feature in set(sum_feature_name_list or avg_feature_name_list):\n")],
    'SUM of one column and AVG of another in one statement', 'the total of the averaged column is never computed: NULL, or that of an earlier statement',
    SUMS + '''
assert answer('select sum(pay), avg(pay) from person') == [[65, 21.6667]]
try:
    got = answer('select sum(pay), avg(bonus) from person')
except Exception as e:
    got = e
assert got == [[65, 3.3333]], got
''')
SEEDS['c19-limit'] = ('C19', [(MD,
    "                  'order by @rownr desc limit 1) tmp'.format(feature_name, n_square, table_name)\n",
    "                  'order by sum desc limit 1) tmp'.format(feature_name, n_square, table_name)\n")],
    'rows whose running product modulo n^2 is not largest at the last row', 'a total over some of the rows',
    SUMS + '''
for n in range(1, 12):
    TABLE[:] = [row(i, 'a', i) for i in range(n)]
    got = answer('select sum(pay) from person')
    assert got == [[sum(range(n))]], (n, got)
''')
SEEDS['c15-yaml-store'] = ('C15', [(MD,
    "            meta[db_name][table_name]['columns'].update(json.loads(col_info))\n",
    "            meta[db_name][table_name]['columns'].update(yaml.load(col_info, Loader=yaml.Loader))\n")],
    'a stored column description with a YAML tag', 'the stored text calls any function when the gateway starts',
    """
import json
mark = os.path.join(SCRATCH, 'made')
STORE.append(('shop', 'mysql', 'person', 'P', json.dumps({'a': {'plaintext': True, 'type': 'int'}}), ''))
STORE.append(('shop', 'mysql', 'other', 'Q', '!!python/object/apply:os.mkdir [%s]' % mark, ''))
try:
    from scheduler.schema.metadata import Delta
    Delta()
except Exception:
    pass
assert not os.path.exists(mark)
""")
SEEDS['c15-body'] = ('C15', [(HA,
    "        try:\n            data = json.loads(self.request.body)\n        except Exception as e:\n            data = self.request.arguments\n",
    "        try:\n            data = json.loads(self.request.body)\n        except Exception as e:\n            data = self.request.arguments or eval(self.request.body)\n")],
    'a body of /rewrite that is not JSON', 'the body of a request is run in the gateway', """
import handler
mark = os.path.join(SCRATCH, 'made')
class Request:
    body = ('__import__("os").mkdir(%r)' % mark).encode()
    arguments = {}
h = object.__new__(handler.RewriteHandler)
h.request = Request
try:
    h._post_request_arguments()
except Exception:
    pass
assert not os.path.exists(mark)
""")
SEEDS['m03-insert-text'] = ('M03', [(MD,
    "            table_name = t_name\n            table_anonymous = t_value['anonymous']\n",
    "            table_name = t_name.strip('_')\n            table_anonymous = t_value['anonymous']\n")],
    'a table whose name begins or ends with an underscore, and a restart', 'the table and its keys are filed under another name',
    """
g = gateway()
from scheduler.schema.metadata import Delta
g.invoke(request(), "create table _fresh (a int, bob int)", {'bob': {'key': 'kk', 'fuzzy': False}}, True)
new = Delta.load_delta()['shop']
assert new['_fresh']['columns'] == Delta().meta['shop']['_fresh']['columns']
""")


SQLP = 'sql_parsing/__init__.py'
SEEDS['m08-tail'] = ('M08', [(SQLP,
    "r'[fF][oO][rR][eE][iI][gG][nN][ \\t\\n\\r]*'\n                                          r'[kK][eE][yY][ \\t\\n\\r]*'\n                                          r'(\\w*)[ \\t\\n\\r]*;?$')",
    "r'[fF][oO][rR][eE][iI][gG][nN][ \\t\\n\\r]*'\n                                          r'[kK][eE][yY][ \\t\\n\\r]*'\n                                          r'(\\w*)[ \\t\\n\\r]*(;|,|$)')")],
    'an ALTER TABLE of two changes, the first the drop of a foreign key', 'only the first change is carried out, the statement is answered as done',
    """
g = gateway()
n = len(EVENTS)
try:
    g.invoke(request(), "alter table person drop foreign key fk_a, drop index ix_b", None, True)
    done = True
except Exception:
    done = False
sent = [e[3] for e in EVENTS[n:] if e[1] == 'shop' and e[2] == 'execute']
assert not done and not sent or any('ix_b' in x for x in sent), (done, sent)
""")
SEEDS['m08-unique'] = ('M08', [(SQLP,
    """               f"add unique {json['add unique']}({','.join([i['value'] for i in json['add unique feature']])});"
""",
    """               f"add {'unique ' if json['alter'] != json['add unique'] else 'index '}{json['add unique']}" \\
               f"({','.join([i['value'] for i in json['add unique feature']])});"
""")],
    'a unique index called like the physical table', 'the index created is not unique',
    """
g = gateway()
n = len(EVENTS)
g.invoke(request(), "alter table person add unique PHYS_PERSON(id)", None, True)
sent = [e[3] for e in EVENTS[n:] if e[1] == 'shop' and e[2] == 'execute']
assert len(sent) == 1 and 'unique' in sent[0].lower(), sent
""")
