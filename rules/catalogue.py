"""property -> (module, rule, what is analysed, assumptions).  The texts go into the evidence and the manifest."""
from . import register

ENGINE = ('The rewriting code is propagated by a trace-partitioned, interprocedural abstract interpreter over the syntax '
          'trees of /repo (nothing is imported or run): request constants are unknown symbols, cipher calls become '
          'provenance terms enc(class, keys, argument), branches on unknown data go both ways. ')
A_PARSE = 'the statement trees analysed have the shapes the SQL parser produces (recorded by hand from the parser)'
A_SCHEMA = ('the abstract schema (one encrypted and one plain column of every type, two tables) stands for every schema: '
            'no code analysed branches on the spelling of a table, column or label beyond what the schema varies')
A_EXT = 'library calls (driver, cipher primitives, json, datetime) are opaque and do what their documentation says'
BASE = (A_PARSE, A_SCHEMA, A_EXT)

register('C01', 'c_insert', 'no occurrence of a request constant of an encrypted column in the tree handed to the SQL '
         'formatter outside an enc(...) term (taint analysis with the cipher call as only sanitizer)',
         ENGINE + 'INSERT statements of every column subset/order, value type and row form are propagated to the point '
         'where the statement is formatted; every leaf of the captured tree is scanned for plaintext provenance.', BASE)
register('C02', 'c_insert', 'every physical column of every inserted logical column receives exactly once the term '
         'enc(class of the label, keys of that column, encoding of that value)',
         ENGINE + 'The captured physical INSERT is matched column by column and row by row with the logical statement.',
         BASE)
register('C03', 'c_where', 'as C01 and C02 for the SET list of UPDATE',
         ENGINE + 'UPDATE statements over every column and value form are propagated to the formatter and the SET '
         'list is compared with the reference assignment.', BASE)
register('C04', 'c_where', 'no constant compared with an encrypted column occurs outside enc(...) in any WHERE, HAVING, '
         'ON or nested condition of the formatted tree',
         ENGINE + 'Every operator of the parser is combined with every column kind, operand order, nesting and '
         'statement kind; the captured tree is scanned as in C01.', BASE)
register('C05', 'c_where', 'each rewritten comparison names a physical column of the same logical column whose label '
         'supports the operator, compared with the constant encrypted by that column\'s class and keys',
         ENGINE + 'The captured condition is aligned with the logical one, operator by operator.', BASE)
register('C06', 'c_select', 'every name in the formatted statement is a physical name of the logical table or column at '
         'that place, and every output of the logical statement appears once, in order',
         ENGINE + 'SELECT forms (lists, *, DISTINCT, aggregates, aliases, qualified names, joins, derived tables, '
         'UNION, GROUP BY/ORDER BY/HAVING, LIMIT) are propagated to the formatter.', BASE)
register('C07', 'c_select', 'the names and types returned to the client are one for one those of the outputs asked for',
         ENGINE + 'execution_context.invoke is propagated end to end with an abstract driver; the header part of the '
         'returned value is compared with the logical outputs.', BASE)
register('C08', 'c_select', 'each returned cell is decode(type, dec(class, keys, cell)) with the class and keys the '
         'column selected by the rewritten statement is written with',
         ENGINE + 'The value returned to the client is a provenance term over the symbols standing for backend cells; '
         'it is matched with the rewritten select list of the same path.', BASE)
register('C09', 'c_select', 'n backend rows give n answer rows in the same order, NULL stays NULL, plain columns and '
         'ciphertext requests pass through unchanged',
         ENGINE + 'Result sets of 0 to 3 rows, NULL in every column and every driver value type are propagated from '
         'the fetch to the returned value.', BASE)

register('C16', 'c_join', 'two columns are compared only in physical columns of one deterministic cipher, key and encoding, or both plain',
         ENGINE + 'Joins and FROM lists of tables whose columns are plain or encrypted, of every type, set of ciphers and one of two '
         'keys, are rewritten with the comparison of every pair of columns in every place of a join condition.', BASE)

register('C18', 'load', 'for every cell of the file each physical column of its column gets the encryption of the encoded value, empty cells '
         'NULL, every row of every chunk once, before the last commit',
         ENGINE + 'batch_process is propagated over files of unknown cells and of texts that look like something else, in one and several '
         'chunks, with stand-ins for the CSV reader and the array functions.',
         BASE + ('pandas.read_csv with dtype=str hands cells over as they are written, without it infers types; numpy keeps the values',))

EXE = ('execution_context.invoke is propagated end to end (classifier, parser, rewriter, executors, metadata, pool and '
       'driver stand-ins) by the abstract interpreter; every call that reaches the driver is an event of the path, and '
       'the rule is decided on the event order of every path, including the exceptional ones. ')
A_DB = 'the driver raises on failure at execute, commit, connect or fetch, and may raise anything there'
register('E01', 'execute', 'no event execute(backend, t) on any path with t derived from the unparsed client text; '
         'statement kinds outside select/insert/update/delete/create/drop have no execute event at all and an error answer',
         EXE + 'Every statement kind the parser knows and some it does not are sent in.', BASE + (A_DB,))
register('E02', 'execute', 'on every path with a raising driver call the answer is an error outcome and no execute event '
         'follows on the backend', EXE + 'Each driver call in turn is made to raise.', BASE + (A_DB,))
register('E03', 'execute', 'on every acknowledged write path: exactly one commit event, after the last execute, on the '
         'session that executed, before that session is closed', EXE + 'All write kinds, with both outcomes.',
         BASE + (A_DB,))
register('E04', 'execute', 'two requests share a pool (and so a session) only if host, port, user, password and database '
         'are equal', EXE + 'Pairs of requests differing in exactly one credential, and pairs whose concatenations collide, '
         'are propagated one after the other over the shared pool table; the session identity terms are compared.',
         BASE + (A_DB,))
register('E05', 'execute', 'every path from taking a session to the end of the request, returning or raising, contains '
         'its close', EXE + 'Each driver call and each parser/rewriter call in turn is made to raise; typestate of the '
         'session object is checked at the end of every path.', BASE + (A_DB,))
register('E06', 'execute', 'no object or class attribute written during a request is read by another except the metadata '
         'and the tables keyed by an unpredictable unique id', EXE + 'Two requests are propagated one inside the other, '
         'and interleaved encrypt_sql2/decrypt_data conversions; the writes to class attributes, module globals and '
         'default arguments are enumerated.', BASE)
A_WEB = ('tornado answers an exception that leaves a handler with an error status and refuses to write anything but text, '
         'bytes and dictionaries')
register('E12', 'convert', 'encrypt_sql, encrypt_sql1, encrypt_sql2 and rewrite hand out the statement invoke executes, execute nothing, '
         'and decrypt_data answers the rows of the statement named as invoke would',
         EXE + 'Each statement shape is propagated through invoke and through each conversion and the statements and answers are '
         'compared; sequences of three conversions on two databases are decrypted in every order.', BASE)

register('E07', 'http', 'on every path of a handler with a raising call the outcome is an exception leaving the handler or an '
         'error status set', ENGINE + 'The routes registered in service.py are read off the module; a request of every route is '
         'propagated through handler and controller, with each field missing and each call made to raise.', BASE + (A_WEB,))
WEB = (ENGINE + 'The routes registered in service.py are read off the module; ')
register('E08', 'shared', 'lockset: every use of a shared connection of the metadata store and every change of an object that existed '
         'before the request (other than adding a new key to a dict) happens with a lock held that is common to all uses; a CREATE '
         'resumed after another one at any lock it waits for is refused', WEB + 'requests of every route and statements of every kind '
         'are propagated twice in a row, with each kind of store, reporting every change of an object of the start state with the '
         'locks held.', BASE + (A_WEB, A_DB, 'adding a key to a dict and reading one are atomic (CPython)'))
register('E09', 'http', 'every gateway call and every call on a connection of the metadata store in a handler\'s paths happens inside '
         'a function submitted to an executor', WEB + 'a request of every route is propagated.', BASE + (A_WEB,))
register('E10', 'http', 'on every path of a handler that is answered, exactly one gateway entry point is called, with the terms of the '
         'request, and the term written is the answer of that call', WEB + 'requests of every route, alone and after every other '
         'request, are propagated through handler and controller with the gateway\'s answers as unknowns.', BASE + (A_WEB,))
register('M06', 'http', 'the text written by the listing, for a metadata store with several databases, is the tables and columns of the '
         'database', WEB + 'the query of the listing is evaluated over rows of several databases, tables and types, in several '
         'orders, and the loop over the rows is propagated.', BASE + (A_WEB, A_DB))
register('M01', 'meta', 'the physical columns in the DDL sent to the backend are those the metadata of the same path '
         'names, with the types of their ciphers; a CREATE whose encryption request cannot be met has no execute event',
         EXE + 'CREATE TABLE statements over every column type, option and encryption request are propagated.', BASE)
register('M02', 'meta', 'at the end of every CREATE/DROP path the metadata in memory and in the store name exactly the '
         'tables that exist', EXE + 'CREATE and DROP, each with the backend failing and succeeding.', BASE + (A_DB,))
register('M03', 'meta', 'on every path with a raising store call the metadata in memory equals that before the request; '
         'what load_delta reads is what insert_sql wrote', EXE + 'Each store call in turn is made to raise, and the row '
         'written is fed back to the loader.', BASE + (A_DB,))
register('M05', 'meta', 'on every path of an operation its store writes are followed by exactly one commit of their connection, '
         'or, when a call raised, by a rollback or close before any later commit of it', EXE + 'CREATE and DROP with each '
         'kind of store (MySQL, SQLite) and each store call in turn made to raise, followed by a CREATE that succeeds; the '
         'store events are replayed per connection as transactions.', BASE + (A_DB,))

register('M07', 'ddl', 'the CREATE TABLE text sent on each path, read back by MySQL\'s grammar of column attributes, constraints '
         'and table options, declares what the statement declared', EXE + 'Types, every combination of NULL, UNIQUE, PRIMARY KEY '
         'and AUTO_INCREMENT on plain and encrypted columns, defaults, constraints and options.',
         BASE + ('the text of a DEFAULT is what S01 decides the formatter emits',))

register('M08', 'alter', 'the text executed for an ALTER TABLE has the tokens of the client\'s text, with the physical table for '
         'the table; a text that says more than one key or index change ends in a refusal without an execute event',
         EXE + 'parse_alter_key and format_alter_key are propagated over the texts of every form (spelling, white space, quoting, '
         'names, without a name), of other ALTER TABLE statements and of unknown tables, inside the whole request path.',
         BASE + ('the SQL grammar has no ALTER TABLE: what parse_alter_key does not take is a parse error',))

A_LIB = 'the identities of the primitives used (AES and SM4 block modes, SHA-256, base64, hex, UTF-8, Paillier) hold as documented'
CRY = ('the cipher classes are propagated by the abstract interpreter over unknown values; library primitives are '
       'constructors with their documented identities, and the resulting terms are compared in normal form. ')
register('C10', 'crypto', 'encode and decode, read off path by path as affine maps with their conditions, are increasing '
         'and inverse of each other on every piece and at every break point',
         'encode/decode of every type are propagated over an unknown value; each path yields an interval, an affine map and '
         'a truncation bound (exact rationals), and coverage, order and inversion are decided piece by piece.',
         (A_LIB, 'floating-point rounding inside a piece is not modelled: 12 decimals up to double precision'))
register('C11', 'crypto', 'the normal form of decrypt(encrypt(x)) with two objects of one key is x, on every path',
         CRY + 'Both directions of AES, SM4 and Paillier are composed.',
         (A_LIB, 'text values do not end in NUL characters (the padding of the AES cipher)'))
register('C12', 'crypto', 'the term an encryption yields contains no unpredictable call and the same term is produced by the '
         'same and by another object of the key; the key enters it whole, through a hash',
         CRY + 'Purity and key dependence are read off the terms and the call events of every path; the bit tape of the '
         'order-preserving cipher is analysed in the same way.', (A_LIB,))
register('C13', 'crypto', 'for every outcome of the sampler and every bit of the tape: E(x) in range, E(x) < E(x+1), '
         'D(E(x)) = x, D refuses everything else',
         'The recursion is propagated over small input/output ranges with the hypergeometric sampler replaced by every '
         'outcome its support allows (one choice per argument and tape) and the tape by unknown bits; all sequences of '
         'encryptions of the range under one key are enumerated by forking.',
         ('the sampler returns a value of the support of its distribution for the arguments it is given',
          'the recursion treats large ranges like small ones except for the size of the numbers'))
register('C14', 'crypto', 'a value is cut into all its runs of w characters in order, each encrypted alone under one key, and '
         'a pattern the gateway accepts is cut with the same w',
         CRY + 'The fuzzy cipher is propagated over strings of 1 to 5 (thorough: 7) unknown characters, per character class; '
         'every pattern position in every value is compared.',
         (A_LIB, 'longer strings are cut by the same loop as those analysed'))
register('C17', 'crypto', 'decrypt("c1,...,cn,SUM") is the plaintext sum under modulus n^2 of the same key and AVG that sum '
         'divided by n; encryption passes no fixed randomness',
         CRY + 'Cells of 1 to 4 ciphertexts are propagated through the decryption; products modulo n^2 of ciphertexts of '
         'one public key are the homomorphic sum.', (A_LIB,))

register('C15', 'lint', 'every reference to an evaluator, unpickler, process starter or importer, in the modules the service '
         'imports, is a call with constant arguments',
         'the import closure of service.py is computed from the syntax trees; names are resolved through imports and aliases, '
         'references that are not calls (passed on, stored) count as violations. ',
         ('the vendored packages imports, dots and parsing_future import modules their callers name in the source',
          'third-party libraries do not evaluate their arguments'))
register('M04', 'lint', 'every text run on the store is a constant, the same for every name in the request',
         WEB + 'Every request form, the schema listing for two data sources, and CREATE and DROP of two tables under each store '
         'configuration are propagated; the texts given to the driver must be constants and equal.', (A_DB, A_WEB))
register('C19', 'agg', 'the statements executed for a SELECT with SUM or AVG, evaluated over a symbolic table, yield the '
         'homomorphic sum (and number) of exactly the selected non-NULL cells of each column; the rest is refused',
         'the request path with the real formatter is propagated by the abstract interpreter with unknown keys; the texts '
         'handed to the driver are read and evaluated over symbolic tables of 0 to 3 rows (every pattern of NULLs and of '
         'comparisons that hold), and each output cell, a product of named cells modulo a term over the key, is compared with '
         'the one the client asked for. ',
         ('MySQL assigns user variables row by row in the order of the rows of the derived table, before ordering by them',
          'comparisons are uninterpreted: any truth value may meet any row', A_PARSE))

FMTR = ('the formatter is propagated by the abstract interpreter with unknown constants; the text of every path, a concatenation '
        'of known pieces and unknown constants, is read by an independent reader of the MySQL grammar and compared with the '
        'tree it was made from. ')
A_SQL = 'the reader in rules/fmt.py follows the expression and statement grammar of the MySQL manual (default SQL mode)'
A_DEPTH = 'the formatter decides parentheses from an operator and the one it stands in (checked with three levels in the thorough tier)'
register('S01', 'fmt', 'read(format(e)) = e for every operator in every operand of every operator',
         FMTR + 'Every operator, function form and subquery in every operand place of every other.', (A_SQL, A_DEPTH, A_PARSE))
register('S02', 'fmt', 'read(format(s)) = s for every combination of clauses', FMTR + 'Subsets of clauses, join forms, set '
         'operations, WITH, windows, derived tables, row forms.', (A_SQL, A_PARSE))
register('S03', 'fmt', 'read(format(s)) = s for every character in every place of a constant or a name',
         FMTR + 'String constants are shown to pass through one-character replacements only, which makes all strings follow '
         'from those of length two; identifiers: every ASCII character in every position, every reserved word.',
         (A_SQL, A_PARSE))
register('S04', 'read', 'the grammar built by the source, taken as data: every text of bounded length over the lexically relevant '
         'characters matches the element and yields the value MySQL gives it; operator levels are ordered as MySQL\'s; every '
         'operator action maps its tokens to the operator of that spelling',
         'The modules building the grammar are propagated by the abstract interpreter with a recording stand-in for the '
         'combinator library (sa/stubs), which yields the alternatives, regular expressions, actions, ignored elements and '
         'operator table as a data structure; the regular expressions are compared with a reader written from the MySQL manual, '
         'the levels with MySQL\'s precedence table, and the actions are propagated over the tokens they can be handed.',
         ('the combinator library (parsing/) matches alternatives, sequences and operator tables as it documents',
          'longer texts of a token are read by the same expression as the short ones compared'))
register('S05', 'read2', 'the tree actions of the grammar, applied to the tokens of every combination of the covered forms, yield '
         'the tree of that statement',
         'The actions that assemble statements (set operations, clauses, WITH, CASE, joins, calls, INSERT rows) are propagated by '
         'the abstract interpreter over every combination of tokens within the bounds and the tree is compared with the one the '
         'tokens denote.', ('the combinator library (parsing/) groups and names tokens as it documents', A_SQL))

A_DRV = 'the database driver raises its OperationalError when the session fails, and follows DB-API 2'
A_HIST = 'longer histories are built from the same operations as those analysed, on pools of up to two sessions'
POOL = ('PooledDB and SteadyDBConnection are propagated by the abstract interpreter over a stand-in driver (sa/stubs/driver.py) whose '
        'calls are events; every history of operations within the bound is composed, for every combination of the pool limits, and '
        'judged on the events. ')
register('D01', 'pool', 'in every state the sessions of live dedicated connections are pairwise different and open, closed connections '
         'refuse use, and every attribute of the pool that changes is only touched under one lock',
         POOL + 'Connections are taken, closed, closed again and used after closing in every order; the lock sets of all accesses to '
         'changing attributes are intersected.', (A_DRV, A_HIST))
register('D02', 'pool', 'between two users of a session there is a rollback and a ping; a session that does not answer is replaced and '
         'closed; new sessions run the preparing commands first', POOL, (A_DRV, A_HIST))
register('D03', 'pool', 'sessions in use never exceed maxconnections, idle ones never maxcached; a request is refused or waits only at the '
         'limit, is woken when a connection comes back, and the count survives driver failures', POOL + 'Waiting lets another request '
         'give back its connection, or nothing happen (spurious wake-up).', (A_DRV, A_HIST))
register('D04', 'pool', 'a statement of a transaction is sent once, on the session of the transaction, and its failure raised; outside, an '
         'answered statement ran once on the session a commit goes to; a failing commit is raised and not repeated',
         POOL + 'Every driver call is made to fail, alone and together with the following ones.', (A_DRV,))
