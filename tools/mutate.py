"""mutate.py OUT N CHECKS file[:from-to]... : a mutation campaign. Changes one construct of a file in a scratch copy of /repo, runs
the checks on the copy and records which of them report it. Only a tool for finding gaps; no check uses it.
Environment: J parallel runs, SEED order."""
import ast, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
out, n, checks, files = sys.argv[1], int(sys.argv[2]), sys.argv[3].split(','), sys.argv[4:]
J, SEED = int(os.environ.get('J', '4')), int(os.environ.get('SEED', '1'))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mutants(path, lo=0, hi=10 ** 9):
    src = open(os.path.join('/repo', path), encoding='utf-8').read()
    tree = ast.parse(src)
    lines = src.split('\n')
    blines = [l.encode() for l in lines]
    off = [0]
    for l in blines:
        off.append(off[-1] + len(l) + 1)
    bsrc = src.encode()

    def span(nd):
        return off[nd.lineno - 1] + nd.col_offset, off[nd.end_lineno - 1] + nd.end_col_offset

    def text(nd):
        a, b = span(nd)
        return bsrc[a:b].decode()

    def sub(nd, new, desc):
        a, b = span(nd)
        m = (bsrc[:a] + new.encode() + bsrc[b:]).decode()
        try:
            compile(m, path, 'exec')
        except SyntaxError:
            return
        if m != src and lo <= nd.lineno <= hi:
            yield path, nd.lineno, desc, m
    docs = {id(b.body[0]) for b in ast.walk(tree) if isinstance(b, (ast.Module, ast.ClassDef, ast.FunctionDef)) and b.body
            and isinstance(b.body[0], ast.Expr) and isinstance(b.body[0].value, ast.Constant)}
    docs |= {id(e.value) for e in ast.walk(tree) if isinstance(e, ast.Expr)}
    for nd in ast.walk(tree):
        s = lambda x: text(x).replace('\n', ' ')[:60]
        if isinstance(nd, (ast.If, ast.While, ast.IfExp)):
            for v in ('True', 'False'):
                if isinstance(nd, ast.While) and v == 'True':
                    continue
                yield from sub(nd.test, v, 'cond->%s %s' % (v, s(nd.test)))
        if isinstance(nd, ast.Compare) and len(nd.ops) == 1:
            o = nd.ops[0]
            swap = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in',
                    ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}[type(o)]
            yield from sub(nd, '%s %s %s' % (text(nd.left), swap, text(nd.comparators[0])), 'cmp ' + s(nd))
        if isinstance(nd, ast.BoolOp):
            w = ' or ' if isinstance(nd.op, ast.And) else ' and '
            yield from sub(nd, '(' + w.join('(%s)' % text(v) for v in nd.values) + ')', 'bool ' + s(nd))
            for i in range(len(nd.values)):
                rest = [v for k, v in enumerate(nd.values) if k != i]
                w2 = ' and ' if isinstance(nd.op, ast.And) else ' or '
                yield from sub(nd, '(' + w2.join('(%s)' % text(v) for v in rest) + ')', 'drop %s of %s' % (s(nd.values[i]), s(nd)))
        if isinstance(nd, ast.UnaryOp) and isinstance(nd.op, ast.Not):
            yield from sub(nd, '(%s)' % text(nd.operand), 'unnot ' + s(nd))
        if isinstance(nd, ast.BinOp) and isinstance(nd.op, (ast.Add, ast.Sub, ast.Mult)):
            w = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+'}[type(nd.op)]
            yield from sub(nd, '(%s %s %s)' % (text(nd.left), w, text(nd.right)), 'arith ' + s(nd))
        if isinstance(nd, ast.Constant) and id(nd) not in docs:
            if nd.value is True or nd.value is False:
                yield from sub(nd, str(not nd.value), 'bool const ' + s(nd))
            elif isinstance(nd.value, int):
                yield from sub(nd, str(nd.value + 1), 'int %d+1' % nd.value)
                yield from sub(nd, str(nd.value - 1), 'int %d-1' % nd.value)
            elif isinstance(nd.value, str) and text(nd)[:1] in '\'"':
                yield from sub(nd, repr(nd.value + 'x') if nd.value else "'x'", 'str ' + s(nd))
        if isinstance(nd, ast.Call) and len(nd.args) >= 2 and not any(isinstance(a, ast.Starred) for a in nd.args):
            a, b = span(nd.args[0])[0], span(nd.args[1])[1]
            m = (bsrc[:a] + ('%s, %s' % (text(nd.args[1]), text(nd.args[0]))).encode() + bsrc[b:]).decode()
            if m != src and lo <= nd.lineno <= hi:
                yield path, nd.lineno, 'swap args ' + s(nd), m
        if isinstance(nd, ast.For):
            yield from sub(nd.iter, 'list(%s)[:-1]' % text(nd.iter), 'for[:-1] ' + s(nd.iter))
            yield from sub(nd.iter, 'list(%s)[::-1]' % text(nd.iter), 'for[::-1] ' + s(nd.iter))
        if isinstance(nd, ast.Return) and nd.value is not None and not (isinstance(nd.value, ast.Constant) and nd.value.value is None):
            yield from sub(nd, 'return None', 'return None ' + s(nd))
        if isinstance(nd, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)) and not (
                isinstance(nd, ast.Expr) and isinstance(nd.value, ast.Constant)):
            if 'logg' in text(nd):
                continue
            yield from sub(nd, 'pass', 'del ' + s(nd))
        if isinstance(nd, ast.Subscript) and isinstance(nd.slice, ast.Slice):
            yield from sub(nd, text(nd.value), 'unslice ' + s(nd))


def run(m):
    path, line, desc, src = m
    t = tempfile.mkdtemp(prefix='mutant.', dir='/tmp/mut')
    try:
        subprocess.run(['cp', '-a', '/repo/.', t + '/repo'], check=True)
        open(os.path.join(t, 'repo', path), 'w', encoding='utf-8').write(src)
        env = dict(os.environ, VERIF_REPO=t + '/repo', VERIF_EVIDENCE=t + '/ev')
        err = None
        for c in checks:
            try:
                p = subprocess.run([sys.executable, HERE + '/check.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   timeout=900)
            except subprocess.TimeoutExpired:
                err = 'timeout ' + c
                continue
            if p.returncode == 1:
                return m, 'caught ' + c
            if p.returncode:
                err = 'error ' + c
        return m, err or 'SURVIVED'
    finally:
        shutil.rmtree(t, True)


if __name__ == '__main__':
    os.makedirs('/tmp/mut', exist_ok=True)
    ms = []
    for f in files:
        path, _, r = f.partition(':')
        lo, hi = ([int(x) for x in r.split('-')] if r else (0, 10 ** 9))
        ms += list(mutants(path, lo, hi))
    random.Random(SEED).shuffle(ms)
    print(len(ms), 'mutants', file=sys.stderr)
    with ThreadPoolExecutor(J) as ex, open(out, 'w') as o:
        for (path, line, desc, _), res in ex.map(run, ms[:n]):
            o.write('%s:%d | %s | %s\n' % (path, line, desc, res))
            o.flush()
