"""the properties: (id, title, statement, quantified over, quantifier text, why tests cannot, files, mechanisms)"""
RW = 'scheduler/handers/rewrite_hander.py'
TB = 'scheduler/handers/table.py'
CL = 'scheduler/handers/clause/'
ENC = 'scheduler/crypto/encrypt.py'
DEC = 'scheduler/handers/decrypt_handler.py'
CTX = 'scheduler/backend/execution_context.py'
REM = 'scheduler/backend/executors/remote_executor.py'
MD = 'scheduler/schema/metadata.py'
FMT = 'sql_parsing/formatting.py'
KEY = 'sql_parsing/keywords.py'
UTL = 'sql_parsing/utils.py'
PRS = 'sql_parsing/sql_parser.py'
POOL = 'dbutils/pooled_db.py'
STEADY = 'dbutils/steady_db.py'
NODB = 'the tests that reach the gateway need a live MySQL and sample a few literals; the stable ones only parse SQL text'

PROPS = [
    ('C01', 'INSERT sends no plaintext of an encrypted column',
     'In the statement the gateway sends to the backend for an INSERT, no value the client gave for an encrypted column '
     'appears other than as the output of that column\'s cipher. This holds for every row and every way of writing the '
     'column and value lists that the gateway accepts; a form it cannot encrypt is refused.',
     ['inputs', 'programs'], 'every INSERT statement, schema and value', NODB,
     [CL + 'sql_values.py', RW, CL + 'sql_rows.py'],
     [('value encryption per physical column', CL + 'sql_values.py SQLValues'),
      ('several rows', CL + 'sql_rows.py SQLRows'), ('statement dispatch', RW + ' rewrite_query')]),
    ('C02', 'INSERT writes every physical column with the right cipher',
     'For every row of an INSERT, each physical column of each inserted encrypted column (order-preserving, symmetric, '
     'fuzzy, arithmetic, sm4) receives that row\'s value of that column in the column type\'s encoding, encrypted under '
     'that column\'s own key with the cipher of that physical column. NULL stays NULL and plain columns receive their value '
     'unchanged; no value is lost or moved to another column or row.',
     ['inputs', 'programs'], 'every INSERT statement, schema and value', NODB,
     [CL + 'sql_values.py', CL + 'sql_columns.py', TB],
     [('physical column list', TB), ('value encryption', CL + 'sql_values.py SQLValues.encrypt_value')]),
    ('C03', 'UPDATE SET encrypts like INSERT, in every physical column',
     'In the statement sent for an UPDATE, setting an encrypted column sets all of its physical columns, each to the '
     'encoded new value encrypted under that column\'s key with the cipher of that physical column, and the plaintext '
     'value appears nowhere. Plain columns are set to the given value, and no other column is assigned.',
     ['inputs', 'programs'], 'every UPDATE statement, schema and value', NODB, [CL + 'sql_set.py', RW],
     [('assignment rewriting', CL + 'sql_set.py')]),
    ('C04', 'Conditions send no plaintext constant of an encrypted column',
     'A constant that a condition (WHERE, HAVING, ON, at any nesting, of SELECT, UPDATE or DELETE) compares with an '
     'encrypted column reaches the backend only as output of that column\'s cipher. A comparison the gateway cannot '
     'translate is refused instead of being sent as it is.',
     ['inputs', 'programs'], 'every operator, operand order, nesting and constant', NODB, [CL + 'sql_where.py', RW],
     [('condition rewriting', CL + 'sql_where.py'), ('statement dispatch', RW)]),
    ('C05', 'Rewritten conditions select by the same comparison',
     'A comparison with an encrypted column is rewritten to the same operator over a physical column of that column '
     'whose cipher supports the operator (order only on order-preserving, equality on order-preserving or symmetric, '
     'LIKE on fuzzy), with the constant encoded and encrypted exactly as stored data of that physical column is. '
     'The boolean structure of the condition, and comparisons of plain columns, are unchanged.',
     ['inputs', 'programs'], 'every operator, operand order, nesting and constant', NODB, [CL + 'sql_where.py'],
     [('condition rewriting', CL + 'sql_where.py'), ('constant encoding', ENC + ' encode')]),
    ('C06', 'SELECT asks the backend for the right physical columns',
     'The SELECT sent to the backend names only physical tables and columns, each belonging to the logical column written '
     'in that place, and its select list has exactly one expression for each output the client asked for, in order. '
     'DISTINCT, LIMIT, joins, grouping, sort direction and sub-queries of the logical statement are kept.',
     ['inputs', 'programs'], 'every SELECT statement and schema', NODB, [CL + 'sql_select.py', CL + 'sql_from.py', RW],
     [('select list', CL + 'sql_select.py'), ('table names', CL + 'sql_from.py')]),
    ('C07', 'The answer header describes the outputs, one for one',
     'The column names and types returned with an answer are those of the outputs the client asked for, one entry per '
     'output, in order, each with the logical name and declared type of its column.',
     ['inputs', 'programs'], 'every SELECT statement and schema', NODB, [CL + 'sql_select.py', RW, REM],
     [('select list bookkeeping', CL + 'sql_select.py'), ('header', REM)]),
    ('C08', 'Each answer cell is decrypted with the key it was encrypted with',
     'Every cell of an answer that comes from an encrypted column is decrypted by the cipher and the key that writes the '
     'physical column the rewritten SELECT names in that position, and then decoded for the declared type of that '
     'logical column. Cells of plain columns are not decrypted.',
     ['inputs', 'programs'], 'every SELECT statement, schema and result', NODB, [DEC, CL + 'sql_select.py', TB],
     [('decryption', DEC), ('choice of physical column', CL + 'sql_select.py')]),
    ('C09', 'Answers keep the rows, their order, NULLs and plain values',
     'The answer to a SELECT has one row for each row the backend returned, in the same order and of the same width. NULL '
     'cells stay NULL without affecting other cells, values of plain columns of any type are returned unchanged, and a '
     'client that asks for ciphertext gets the backend rows as they are.',
     ['inputs'], 'every result set', NODB, [DEC, REM], [('decryption of rows', DEC)]),
    ('C15', 'Nothing from a request, the store or the backend is executed as code',
     'No value the service receives (request fields, query texts, uploaded rows, stored metadata, backend cells) is ever '
     'evaluated as Python, unpickled, run as a command or imported: in all the code the service loads, every use of an '
     'evaluator, unpickler, process starter or importer has arguments fixed in the source.',
     ['inputs'], 'every request, stored value and answer', 'a test shows one value, the guarantee is over all code paths',
     ['controller/rewriter.py', 'scheduler/crypto/encrypt.py', 'scheduler/handers/decrypt_handler.py'],
     [('reading literals', 'ast.literal_eval in controller/, scheduler/')]),
    ('C16', 'Join conditions compare only what is stored comparably',
     'A condition that compares a column of one table with a column of another is sent to the backend only if both are plain, or '
     'if both physical columns hold values of one encoding, encrypted deterministically with the same cipher under the same key, '
     'so that rows match exactly when the logical values are equal. Every other comparison of columns is refused instead of '
     'matching nothing; the boolean structure of the condition and the tables it names are kept.',
     ['inputs', 'programs', 'configurations'], 'every pair of columns, schema and join condition', NODB, [CL + 'sql_where.py', CL + 'sql_from.py'],
     [('join conditions', CL + 'sql_where.py comparable')]),
    ('C18', 'Bulk load stores what an INSERT of the same values stores',
     'Every row of a bulk-loaded file is written exactly once, before the last commit, into the physical table of the named table. '
     'Each physical column of each encrypted column of the load gets the encoded value of the cell encrypted under that column\'s key '
     'with the cipher of that physical column, plain columns get the text as it is written in the file, and an empty cell is NULL. '
     'A load into an unknown table or column writes nothing.',
     ['inputs', 'configurations'], 'every file, list of columns and schema', NODB, [REM], [('bulk load', REM + ' insert_chunks')]),
    ('E01', 'Only rewritten statements of supported kinds reach the backend',
     'The backend executes only statements the gateway produced by rewriting; the SQL text of a client is never executed '
     'as it came. A statement of a kind the gateway cannot rewrite, or cannot parse, is refused with an error and causes no '
     'execution at all.',
     ['inputs', 'programs'], 'every SQL text', NODB, [CTX, 'scheduler/compile/__init__.py', RW],
     [('request execution', CTX + ' invoke'), ('statement classes', RW + ' rewrite_query')]),
    ('E02', 'A backend failure is reported to the client as a failure',
     'When connecting, executing, fetching or committing on the backend fails, the client gets an error, never a success or '
     'a result, and nothing further of that request is executed.',
     ['fault_sequences', 'inputs'], 'every failing backend call of every request',
     'no test injects backend failures', [CTX, REM], [('execution', REM), ('request execution', CTX + ' invoke')]),
    ('E03', 'A write answered as done has been committed, once',
     'When a write is answered as successful its transaction has been committed exactly once, after all its statements, on '
     'the session that executed them and before that session is given back.',
     ['histories', 'fault_sequences'], 'every write request', NODB, [REM, CTX, POOL], [('execution', REM)]),
    ('E04', 'A request runs on a session of its own credentials',
     'The backend session a request uses was opened with exactly the host, port, user, password and database of that '
     'request. Pooled sessions are never handed to a request with other credentials.',
     ['histories', 'inputs'], 'every sequence of requests and credentials', NODB, [REM, CTX],
     [('pool table', REM + ' connection_pool')]),
    ('E05', 'Every request gives its pooled connection back',
     'Whatever a request does - success, refusal, an error at any step - the pooled connection it took is closed (returned '
     'to the pool) when the request ends.',
     ['fault_sequences', 'histories'], 'every failure point of every request',
     'leaks show only after the pool is exhausted and only on error paths', [CTX, REM, 'controller/rewriter.py'],
     [('request execution', CTX + ' invoke'), ('session', REM)]),
    ('E06', 'Requests do not see state of other requests',
     'The result of a request depends only on that request, the table metadata and the database: nothing another request, '
     'earlier or concurrent, left in the process (statement, column list, table in use, pending conversion) changes it. '
     'Query ids handed out for later decryption are unique.',
     ['schedules', 'histories'], 'every interleaving of requests', 'the tests are sequential',
     [CTX, RW, 'controller/rewriter.py', MD], [('per-request rewriter', RW), ('conversion ids', 'controller/')]),
    ('E07', 'A request that fails is never answered as a success',
     'Whatever fails while an HTTP request is handled (a malformed request, an unknown data source, the metadata store, the '
     'rewriting, the backend, the decryption), the answer has an error status. The client is never given an empty result, or '
     'its own statement in place of the rewritten one, for a statement that was not carried out.',
     ['fault_sequences', 'inputs'], 'every route, request and failure', 'the tests send no requests',
     ['handler.py', 'controller/rewriter.py', 'service.py'], [('error mapping', 'handler.py post'),
                                                              ('controllers', 'controller/rewriter.py')]),
    ('E08', 'Requests at the same time do not disturb what they share',
     'A connection to the metadata store, and every module, class or object that requests share, is changed (and the connection '
     'used, until its rows are read and its writes committed) under one common lock. Of two requests that create the same table at '
     'the same time one is refused, and the table and keys of the other are kept.',
     ['schedules', 'histories'], 'every pair of requests and interleaving', 'no test runs two requests at the same time',
     ['handler.py', MD, CTX, REM], [('store lock', 'handler.py query_store'), ('metadata lock', MD + ' Delta')]),
    ('E09', 'The event loop never waits for a database',
     'No HTTP handler runs a statement, a query of the metadata store or the encryption of a request on the thread of the '
     'event loop, so one slow request never keeps the others from being accepted and answered.',
     ['schedules', 'inputs'], 'every route and request', 'the tests send no requests, and one request alone never shows it',
     ['handler.py', 'service.py'], [('worker threads', 'handler.py run_on_executor')]),
    ('E10', 'Requests reach the gateway as sent, answers the client as returned',
     'The gateway is called once per HTTP request, with the statement, credentials (of the request, of its data source or of '
     'the configuration, as the route says) and encryption request of that request and no other; only trailing semicolons are taken off. '
     'The answer holds every row the gateway returned, each value under its column, and rewritten statements unchanged.',
     ['inputs', 'histories'], 'every route, request and sequence of requests', 'the tests send no requests',
     ['handler.py', 'controller/rewriter.py', 'service.py'], [('routes', 'handler.py'), ('controllers', 'controller/rewriter.py')]),
    ('M06', 'The schema listing shows the tables and columns that exist, and no keys',
     'The listing of a data source names every table of its database known to the gateway and of no other database, each with '
     'its columns and types, marks exactly the encrypted ones, and contains neither keys nor physical names.',
     ['inputs', 'configurations'], 'every metadata content', 'the tests send no requests', ['handler.py'],
     [('schema listing', 'handler.py SchemaHandler')]),
    ('E12', 'Converted statements and later decryption agree with direct execution',
     'A statement handed out by the conversion interface (encrypt_sql, encrypt_sql1, encrypt_sql2, rewrite) is the statement the '
     'gateway would send for it itself, before the set-up of sums of encrypted columns, and the conversion executes nothing on the '
     'backend. Rows given to decrypt_data with the id of a converted SELECT are answered with the columns and values direct '
     'execution gives, whatever other statements and databases were converted in between; an id that was not handed out '
     'decrypts nothing.',
     ['inputs', 'programs', 'histories'], 'every statement and order of conversions and decryptions', NODB,
     [CTX, 'scheduler/backend/executors/decrypt_executor.py', REM, DEC],
     [('statements by id', CTX + ' encrypt_sql2, decrypt_data'), ('decryption of given rows', DEC + ' decrypt1')]),
    ('M01', 'CREATE TABLE creates the physical columns its metadata names',
     'The statement sent for CREATE TABLE has, for each logical column, exactly the physical columns the recorded metadata '
     'lists for it, with types able to hold their ciphertext; columns to encrypt are never also created in clear. A request '
     'to encrypt that cannot be met (unknown column, table already known, default of an encrypted column) is refused.',
     ['inputs', 'programs'], 'every CREATE TABLE statement and encryption request', NODB,
     [RW, TB, MD], [('physical columns', TB), ('metadata', MD)]),
    ('M02', 'Metadata lists exactly the tables that exist, after success and failure',
     'After a CREATE or DROP the metadata, in memory and in the store, contains the table if and only if the backend '
     'statement succeeded in making it exist; a statement the backend rejects leaves the metadata as it was.',
     ['fault_sequences', 'histories'], 'every CREATE/DROP and backend outcome', 'no test injects backend failures', [MD, CTX],
     [('metadata updates', MD + ' Delta')]),
    ('M03', 'Metadata in memory and in the store stay equal, across failures and restart',
     'A failing write to the metadata store fails the request and leaves the metadata in memory unchanged; what a restarted '
     'gateway loads (tables, columns, ciphers, keys) is what the running one had.',
     ['fault_sequences', 'crash_points'], 'every store failure and restart', 'no test restarts the gateway or fails the store', [MD],
     [('loading', MD + ' load_delta'), ('storing', MD + ' insert_sql')]),
    ('M04', 'No client text becomes part of a statement on the metadata store',
     'The statements the gateway runs on its own store (metadata of tables, data sources) have fixed texts: names, ids, keys and '
     'column descriptions taken from requests or from the store reach them only as bound parameters. So no request can read or '
     'change metadata of other databases or tables through its names.',
     ['inputs'], 'every request and every name in it', 'no test sends hostile names; the texts are built at run time', [MD, CTX],
     [('store statements', MD + ' insert_sql, delete_sql'), ('data sources', 'controller/')]),
    ('M05', 'A change of the metadata store is kept whole or not at all',
     'The metadata rows of one CREATE or DROP are committed together, in one transaction: no crash point keeps a part of them. '
     'What a failed operation wrote is discarded: it is never committed with a later one. Metadata that could not be loaded '
     'is an error, never taken for an empty schema.',
     ['fault_sequences', 'crash_points', 'histories'], 'every failing store call and every operation after it',
     'no test fails the store', [MD], [('transactions', MD + ' Delta.write_store'), ('loading', MD + ' Delta.__new__')]),
    ('M07', 'CREATE TABLE keeps keys, constraints, defaults and table options, or is refused',
     'What a CREATE TABLE declares beside the encryption (types of plain columns, NULL and NOT NULL, UNIQUE, keys and foreign '
     'keys with their actions, AUTO_INCREMENT, DEFAULT, CHECK, TEMPORARY, an AS query, engine, character set) holds for the table '
     'created on the backend, for encrypted columns on the physical column whose ciphertext is unique to the value; a '
     'statement the gateway cannot carry over whole is refused and nothing is created.',
     ['inputs', 'programs'], 'every CREATE TABLE statement', NODB, [TB],
     [('column definitions', TB + ' rewrite_table'), ('constraints', TB + ' get_constraint_key')]),
    ('M08', 'ALTER TABLE is carried out whole on the physical table, or refused',
     'An ALTER TABLE that adds or drops one primary key, foreign key, index, unique index or full-text index is either refused '
     'with nothing executed, or executed as that same change, under the index or constraint name the client gave, on the '
     'physical table. Every other ALTER TABLE (also one with more than such a change) and one of an unknown table is refused '
     'with nothing executed. No ALTER TABLE changes the metadata.',
     ['inputs', 'programs'], 'every ALTER TABLE statement', NODB, ['sql_parsing/__init__.py'],
     [('reading', 'sql_parsing/__init__.py parse_alter_key'), ('writing', 'sql_parsing/__init__.py format_alter_key')]),
    ('C10', 'Stored encoding of numbers is order-preserving and invertible',
     'The integer a float or double value is encoded to before encryption exists for every value of the documented range '
     '(double: up to 10^65 in magnitude), grows with the value, and decodes back to the value up to the fixed precision of '
     '12 decimals (double: relative to the piece of the stretch function). Values of other types are stored and returned '
     'unchanged.',
     ['inputs'], 'every value of every column type', 'no test encodes; a break point, a sign or one piece of the inverse can '
     'be wrong for a range no sample hits', [ENC],
     [('piecewise encoding', ENC + ' encode, stretch'), ('decoding', ENC + ' decode, inverse_stretch')]),
    ('C11', 'Decryption gives back what was encrypted under the same key',
     'For the symmetric (AES), sm4 and arithmetic (Paillier) ciphers, decrypting with a key what was encrypted with that key '
     'yields the original value, for every text (not ending in NUL), integer and key, also when another object of the same '
     'key decrypts.',
     ['inputs'], 'every value and key', 'padding, encoding or key derivation errors show only for particular lengths or '
     'alphabets', [ENC], [('AES', ENC + ' AESCipher'), ('SM4', ENC + ' SM4CipherBytes'),
                          ('Paillier', ENC + ' HomomorphicCipher')]),
    ('C12', 'Searchable ciphertexts are a fixed function of value and whole key',
     'The ciphertexts compared by the backend (symmetric, fuzzy, order-preserving, sm4) are a deterministic function of the '
     'value and the column key: encrypting again, later, or with another cipher object of that key gives the same '
     'ciphertext. The whole key enters that function and the ciphertext depends on it.',
     ['inputs', 'histories'], 'every value, key and sequence of encryptions',
     'a dependence on state, time or randomness shows only across calls or processes', [ENC, 'scheduler/crypto/ope/ope.py'],
     [('ciphers', ENC), ('bit tape', 'scheduler/crypto/ope/ope.py tape_gen')]),
    ('C13', 'Order-preserving encryption keeps order and is inverted by decryption',
     'For every key and every two integers of the input range, the smaller one has the smaller ciphertext, all ciphertexts '
     'lie in the output range, and decryption returns the integer a ciphertext was made from. Values outside the ranges '
     'and numbers that are no ciphertext are refused, not mapped to something.',
     ['inputs'], 'every key, range and integer', 'an error at one boundary of the recursion corrupts a vanishing share of the '
     'integers', ['scheduler/crypto/ope/ope.py', 'scheduler/crypto/ope/stat.py'],
     [('recursion', 'scheduler/crypto/ope/ope.py OPE'), ('sampling', 'scheduler/crypto/ope/stat.py')]),
    ('C14', 'LIKE on an encrypted column finds every value containing the text',
     'The fuzzy ciphertext of a value contains, as a substring, the fuzzy ciphertext of every part of the value that the '
     'gateway accepts as a search text; each run of characters is encrypted on its own, in order, under the column key. '
     'A LIKE pattern for which this cannot hold (too short a text, one-character wildcards) is refused.',
     ['inputs'], 'every value and every text occurring in it', 'no test searches; gaps depend on length, alphabet and '
     'position', [ENC, CL + 'sql_where.py'], [('grams', ENC + ' FuzzyCipher'), ('patterns', CL + 'sql_where.py')]),
    ('C17', 'Encrypted SUM and AVG decrypt to the sum and mean of the values',
     'For a column with the arithmetic cipher, the cell a backend aggregate returns (the ciphertexts of the group and the '
     'name of the aggregate) decrypts to the sum, or the mean, of exactly the values in it, for every number of values; and '
     'the ciphertexts stored for it are randomised Paillier encryptions under the modulus of the column.',
     ['inputs'], 'every group of values and every key', 'needs a backend and several rows; no test aggregates', [ENC],
     [('aggregation', ENC + ' HomomorphicCipher.decrypt')]),
    ('C19', 'SUM and AVG of encrypted columns cover exactly the selected rows',
     'For a SELECT from one table with SUM or AVG of encrypted columns, the statements run on the session give, in the '
     'place of each aggregate, the product, modulo the square of the modulus of that column, of the ciphertexts of exactly the '
     'non-NULL values in the rows the WHERE condition selects, and for AVG their number too, decrypted as the mean. The other '
     'output columns, further aggregates and constants that look like SQL neither change this nor are changed by it. GROUP '
     'BY, HAVING, OFFSET and LIMIT 0, for which one total over all rows is not the answer, are refused.',
     ['inputs', 'programs'], 'every table content (number of rows, NULLs, which rows meet the condition) and every such SELECT',
     'no test aggregates; the result depends on the rows, on NULLs and on several session variables set before the SELECT',
     ['scheduler/backend/executors/remote_executor.py', 'scheduler/schema/metadata.py', ENC],
     [('session variables', 'scheduler/schema/metadata.py Delta.set_sum_feature, get_paillier_procedure_info'),
      ('substitution', 'scheduler/backend/executors/remote_executor.py inject_procedure')]),
    ('S01', 'The SQL text sent has the meaning of the expression it was made from',
     'Every expression of a rewritten statement is written as MySQL text that MySQL reads back as the same expression: '
     'whatever operator, function, list, CASE, CAST, interval or subquery stands in whatever operand of another, no '
     'grouping, operand or operator is lost, regrouped or reordered, and the text is grammatical.',
     ['inputs', 'programs'], 'every expression tree', 'tests compare a few literal texts', [FMT, KEY],
     [('formatter', FMT + ' Formatter'), ('precedence', KEY + ' precedence')]),
    ('S02', 'The SQL text sent has the clauses of the statement it was made from',
     'Every statement the gateway rewrites (SELECT with its clauses, joins, set operations, WITH, windows, derived tables and '
     'subqueries; INSERT, UPDATE, DELETE, DROP) is written as MySQL text that MySQL reads back as the same statement: no '
     'clause, item, row, join or parenthesis is lost, added or moved.',
     ['inputs', 'programs'], 'every statement tree', 'tests compare a few literal texts', [FMT],
     [('formatter', FMT + ' Formatter')]),
    ('S03', 'Names and string constants sent are quoted so that MySQL reads them unchanged',
     'Whatever characters a string constant or an identifier consists of, and wherever it stands in the statement, MySQL '
     'reads the text sent as one constant or one name equal to it: no value or name can end its quotes, become a keyword, a '
     'number, a comment or another statement (no injection through data).',
     ['inputs'], 'every string and identifier in every place', 'tests contain no special characters', [FMT],
     [('literals', FMT + ' Formatter._literal'), ('identifiers', FMT + ' escape')]),
    ('S04', 'Constants, names, comments, operators and rows are read as MySQL reads them',
     'For every client text: string constants (quotes, doubled quotes, backslash escapes), numbers, backquoted and plain names '
     'are read as the values MySQL gives them; exactly the comments of MySQL are skipped; every operator is read as MySQL\'s '
     'operator of that spelling, with its operands in order, grouped by MySQL\'s precedence; IS NULL and = NULL are kept apart; '
     'lists keep their members; the rows of a multi-row INSERT pair each value with its own column or are refused.',
     ['inputs'], 'every constant, name, comment and operator', 'tests parse a handful of statements', [PRS, UTL, KEY],
     [('lexical elements', UTL + ' ansi_string, int_num, real_num, unquote'), ('operators', KEY + ' KNOWN_OPS'),
      ('operator trees', UTL + ' to_json_operator')]),
    ('S05', 'Statements are read with all their parts',
     'No part of a client statement is lost, added or moved when it is read: ORDER BY, LIMIT, OFFSET and WITH of single, '
     'parenthesised and combined (UNION, EXCEPT ...) queries, every branch and the ELSE of CASE, the condition of every join, '
     'every argument of a function and every value of every INSERT row arrive in the statement tree, also when their value is '
     '0, the empty string, FALSE or NULL. A combination that cannot be represented is refused.',
     ['inputs', 'programs'], 'every combination of clauses and values', 'tests parse a handful of statements', [UTL, PRS],
     [('set operations', UTL + ' to_union_call'), ('CASE', UTL + ' to_case_call'), ('rows', UTL + ' to_values, to_insert_call'),
      ('joins', UTL + ' to_join_call')]),
    ('D01', 'A pooled session has one user at a time',
     'A session handed out by the pool as a dedicated connection belongs to that one holder until it is given back: no other '
     'request gets it, it is not closed under its holder, and giving it back twice or late affects nobody else. A connection '
     'that was given back refuses further use, a shared session is not shared while in a transaction, and all of this holds for any '
     'number of threads: the pool touches its state only with its lock held.',
     ['schedules', 'histories'], 'every history of taking and giving back, by any number of threads',
     'the pool test of the repository runs one thread and few operations', [POOL],
     [('hand-out', POOL + ' PooledDB.connection'), ('return', POOL + ' PooledDB.cache, PooledDedicatedDBConnection.close')]),
    ('D02', 'A pooled session is clean, prepared and alive when handed out',
     'Whatever its last user left undone is rolled back before a session is handed to the next one (always with reset=True, '
     'after begin() otherwise). An idle session is checked before it is handed out and replaced, and closed, if it does not '
     'answer. Every new session has run the preparing commands (setsession) before it is used; one they fail on is closed.',
     ['histories', 'fault_sequences'], 'every history of use, and every failure of a session',
     'needs sessions that die or are left in a transaction', [POOL, STEADY],
     [('reset', POOL + ' PooledDB.cache, ' + STEADY + ' SteadyDBConnection._reset'),
      ('check', STEADY + ' SteadyDBConnection._ping_check'), ('preparation', STEADY + ' SteadyDBConnection._setsession')]),
    ('D03', 'The pool keeps its limits, its count, and wakes who waits',
     'At most maxconnections sessions are in use and at most maxcached idle ones are kept. A request is refused (or, in a '
     'blocking pool, waits) only when no session may be handed out, and giving one back wakes a waiting request. Failures of '
     'the driver while a connection is opened, checked, rolled back or closed neither use up a place nor free one too many, and '
     'idle sessions are reused before new ones are opened.',
     ['schedules', 'histories', 'fault_sequences'], 'every history, limit and driver failure',
     'counting errors show after failures or with waiting threads only', [POOL],
     [('limits', POOL + ' PooledDB.connection'), ('count', POOL + ' PooledDB.cache'), ('waiting', POOL + ' PooledDB._wait_lock')]),
    ('D04', 'Statements are never repeated or moved silently inside a transaction',
     'After begin(), a statement is sent at most once and on the session of the transaction; a failure is raised to the '
     'caller, never hidden by a retry or a reconnect. Outside a transaction a statement answered as done ran successfully '
     'exactly once, on the session its commit goes to, and a statement the backend refuses is not sent again. A failing '
     'commit or rollback is raised and not repeated, and no session is left open unused.',
     ['fault_sequences', 'histories'], 'every pattern of driver failures', 'needs a backend whose sessions fail at given points',
     [STEADY], [('failover', STEADY + ' SteadyDBCursor._get_tough_method'), ('cursor', STEADY + ' SteadyDBConnection._cursor'),
                ('commit', STEADY + ' SteadyDBConnection.commit, rollback')]),
]
NA = []
