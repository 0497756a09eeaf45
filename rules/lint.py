"""Nothing a request or the store contains is executed as code, or becomes text of a statement on the metadata store."""
import ast
import builtins

from .http import *
from .meta import CREATE, ENCRYPTED, from_state, named

# name -> is it a sink whatever its arguments are (a loader of code), or only with arguments not fixed in the source
BUILTIN = ('eval', 'exec', 'compile', '__import__', 'execfile')
SINKS = {'pickle': ('load', 'loads', 'Unpickler'), '_pickle': ('load', 'loads', 'Unpickler'), 'cPickle': ('load', 'loads'),
         'dill': ('load', 'loads'), 'cloudpickle': ('load', 'loads'), 'joblib': ('load',), 'marshal': ('load', 'loads'),
         'shelve': ('open',), 'yaml': ('unsafe_load', 'unsafe_load_all', 'load', 'load_all'), 'jsonpickle': ('decode',),
         'subprocess': ('run', 'call', 'check_call', 'check_output', 'Popen', 'getoutput', 'getstatusoutput'),
         'os': ('system', 'popen', 'execv', 'execve', 'execvp', 'execl', 'execlp', 'spawnl', 'spawnv', 'spawnlp', 'posix_spawn'),
         'pty': ('spawn',), 'commands': ('getoutput',), 'importlib': ('import_module', '__import__'), 'runpy': ('run_path', 'run_module'),
         'code': ('interact', 'InteractiveInterpreter'), 'codeop': ('compile_command',), 'imp': ('load_source',),
         'pandas': ('eval', 'read_pickle'), 'builtins': BUILTIN, 'types': ('CodeType',)}
# generic library code that imports a module its caller names in the source
IMPORTERS = ('imports', 'dots', 'parsing_future')


def closure(project, root):
    """modules of the repository the service imports, anywhere"""
    seen, todo = set(), [root]
    while todo:
        n = todo.pop()
        if n in seen or not project.has(n):
            if n not in seen and '.' in n:
                todo.append(n.rsplit('.', 1)[0])
            continue
        seen.add(n)
        m = project.mod(n)
        todo += ['.'.join(n.split('.')[:i]) for i in range(1, n.count('.') + 1)]
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Import):
                todo += [a.name for a in x.names]
            elif isinstance(x, ast.ImportFrom):
                base = project.resolve_from(m, x)
                todo += [base] + [base + '.' + a.name for a in x.names]
    return sorted(seen)


def fixed(n, names=()):
    """is the expression a constant written in the source?"""
    if isinstance(n, ast.Constant):
        return True
    if isinstance(n, (ast.List, ast.Tuple)):
        return all(fixed(e, names) for e in n.elts)
    if isinstance(n, ast.BinOp):
        return fixed(n.left, names) and fixed(n.right, names)
    if isinstance(n, ast.Name):
        return n.id in ('__name__', '__file__', '__package__') or n.id in names
    return False


def constants(m):
    """names that are only ever bound to constants of the source in this module"""
    good, bad = set(), set()
    values = {}
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            values[id(x.targets[0])] = x.value
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
            (good if id(x) in values and fixed(values[id(x)]) else bad).add(x.id)
        elif isinstance(x, ast.arg):
            bad.add(x.arg)
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            bad.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            bad |= {a.asname or a.name.split('.')[0] for a in x.names}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            bad.add(x.name)
    return good - bad


def uses(m):
    """(qualified name of a sink, node of the reference, Call node when it is called) in one module"""
    alias, star, local = {}, set(), set()
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Import):
            for a in x.names:
                alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(x, ast.ImportFrom) and not x.level:
            for a in x.names:
                alias[a.asname or a.name] = '%s.%s' % (x.module, a.name)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            local.add(x.name)
            if isinstance(x, ast.FunctionDef):
                local |= {a.arg for a in x.args.args + x.args.kwonlyargs}
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            local.add(x.id)

    def name(n):
        if isinstance(n, ast.Name):
            if n.id in alias:
                return alias[n.id]
            if n.id == '__builtins__':
                return 'builtins'
            return n.id if n.id in BUILTIN and n.id not in local else None
        if isinstance(n, ast.Attribute):
            b = name(n.value)
            return b and '%s.%s' % (b, n.attr)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant):
            b = name(n.value)
            return b and '%s.%s' % (b, n.slice.value)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) > 1 and \
                isinstance(n.args[1], ast.Constant):
            b = name(n.args[0])
            return b and '%s.%s' % (b, n.args[1].value)
        return None

    def sink(q):
        if q is None:
            return None
        if q in BUILTIN:
            return q
        mod, _, f = q.rpartition('.')
        return q if f in SINKS.get(mod, ()) else None
    called = {id(x.func): x for x in ast.walk(m.tree) if isinstance(x, ast.Call)}
    for x in ast.walk(m.tree):
        if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)) and not isinstance(getattr(x, 'ctx', None), ast.Store):
            q = sink(name(x))
            if q:
                yield q, x, called.get(id(x))


def check_C15(project, rep):
    mods = closure(project, 'service')
    for n in ('handler', 'controller.rewriter', 'scheduler.backend.execution_context', 'scheduler.handers.decrypt_handler',
              'scheduler.backend.executors.remote_executor', 'scheduler.crypto.encrypt', 'scheduler.schema.metadata',
              'sql_parsing', 'dbutils.pooled_db'):
        if n not in mods and not any(x.endswith(n) for x in mods):
            raise AnalysisError('the service does not import %s' % n)
    for n in mods:
        m = project.mod(n)
        rep.count('modules')
        rep.count('calls', sum(isinstance(x, ast.Call) for x in ast.walk(m.tree)))
        rep.ok()
        names = constants(m)
        for q, node, call in uses(m):
            rep.count('uses of code loaders')
            if n.split('.')[0] in IMPORTERS and q in ('__import__', 'importlib.import_module'):
                continue
            key = '%s in %s' % (q, m.rel)
            where = '%s:%d' % (m.rel, node.lineno)
            if call is None:
                rep.check(False, key, '%s: %s is handed on' % (where, q))
                continue
            if q.startswith('yaml.load'):
                ld = [k.value for k in call.keywords if k.arg == 'Loader'] + call.args[1:2]
                last = ld[0].attr if ld and isinstance(ld[0], ast.Attribute) else ld[0].id if ld and isinstance(ld[0], ast.Name) else ''
                rep.check(last in ('SafeLoader', 'CSafeLoader', 'BaseLoader', 'FullLoader'), key,
                          '%s: %s builds arbitrary objects' % (where, q), '%s: %s with a safe loader' % (where, q))
                continue
            rep.check(all(fixed(a, names) for a in call.args) and all(fixed(k.value, names) for k in call.keywords), key,
                      '%s: %s runs %s, which is not written in the source' % (where, q, ast.unparse(call)[:120]),
                      '%s: %s of a constant' % (where, q))
    rep.need('modules', 40)
    rep.need('calls', 2000)


# ------------------------------------------------------------------------------------------ M04
RUNS = ('execute', 'executemany', 'executescript', 'callproc', 'cmd_query', 'query')


def texts(s):
    """the statements run on anything but a session of the client"""
    return [e for e in s.trace if e.kind in ('call', 'raised') and e.name in RUNS and side(e) != 'backend' and e.args]


def check_M04(project, rep):
    seen = {}

    def one(tag, base, s):
        for e in texts(s):
            rep.count('statements on the store')
            t = e.args[0]
            k = K(t.v) if isinstance(t, K) else t
            rep.check(isinstance(t, K) and isinstance(t.v, str), '%s: %s' % (tag, e.fn.name if hasattr(e.fn, 'name') else e.name),
                      'the text %s run on the store contains values of the request' % (repr(t)[:300],),
                      '%s: constant text %r' % (tag, t.v if isinstance(t, K) else t))
            yield repr(k)
    h = Http(project)
    for tag, path, body, needed, kw in requests():
        a = dict(kw)
        if a.get('form') is not None:
            a['form'] = dict(a['form'], query=SQL)
        for v, s in h.request(path, body, **a):
            list(one(tag, None, s))
    # the same request with other names runs the same texts
    for path in ('/jdbc_query/schema/%s',):
        sets = []
        for i in ('7', '83'):
            sets.append({t for v, s in h.request(path % i, {}, method='get', rows=[ROW[:2] + (K('jdbc:mysql://h:1/d%s' % i),) + ROW[3:]])
                         for t in one('schema listing', None, s)})
        rep.check(sets[0] == sets[1], 'schema listing', 'other texts run for another data source: %s' % sorted(sets[0] ^ sets[1]))
    pl = Pipeline(project)
    for start in pl.starts(CTX):
        for q in ('CREATE', 'DROP'):
            sets = []
            for name in (('n', 'zz') if q == 'CREATE' else ('t', 's')):
                js, enc = (named(name, CREATE), ENCRYPTED) if q == 'CREATE' else ({'drop': {'table': name}}, None)
                got = set()
                for v, s in from_state(pl, start.copy(), js, q, enc):
                    got |= set(one(q, None, s))
                sets.append(got)
            rep.check(sets[0] == sets[1] and not any(DB in t for t in sets[0]), q,
                      'the text run on the store depends on the names: %s' % sorted(sets[0] | sets[1]),
                      '%s: the same texts for every table' % q)
    rep.need('statements on the store', 10)
