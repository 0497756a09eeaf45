"""The whole request path under the dataflow engine: execution_context.invoke -> RemoteExecutor -> Rewriter ->
(opaque driver) -> DecryptHandler, with the SQL parser and the database driver replaced by abstract values."""
from .common import *

CTX = 'scheduler.backend.execution_context'
INFO = {'host': Sym('host', 'str'), 'port': Sym('port', 'int'), 'db': DB, 'user': Sym('user', 'str'),
        'password': Sym('password', 'str'), 'query': Sym('sql', 'str')}


class Pipeline(Gateway):
    def __init__(self, project, meta=None, may_raise=None, extra_opaque=(), intrinsics=None, **kw):
        self.rows = []
        self.qtype = 'SELECT'
        i = {'.fetchall': self._fetchall}
        i.update(intrinsics or {})
        super().__init__(project, meta, extra_opaque=('dbutils',) + tuple(extra_opaque), intrinsics=i,
                         may_raise=may_raise, **kw)

    def _fetchall(self, I, args, kw, st, node, fr):
        r = self.rows(len(self.captured)) if callable(self.rows) else self.rows
        e = Event('call', 'fetchall', NONE, (), {}, node, st.locks, NONE, fr and fr.fn)
        out = []
        if I.may_raise is not None:
            x = I.may_raise(I, e, st)
            if x is not None:
                s2 = st.copy()
                I.event(s2, Event('raised', 'fetchall', NONE, (), {}, node, st.locks, x, fr and fr.fn))
                out.append((Exc(x, node), s2))
        I.event(st, e)
        out.append((lift(r, st), st))
        return out

    def _cls(self, I, cref, o, args, kw, st, node, fr):
        if o.name == 'Parser' and o.mod == 'scheduler.compile.parser':
            if self.qtype is None:
                v = NONE
            elif isinstance(self.qtype, V):
                v = self.qtype
            else:
                qt = I.mod_get('scheduler.compile.keywords_lists', 'QueryType', st)
                v = I.getattr(qt, self.qtype, st, None, None)[0][0]
            return [(st.alloc(HInst(cref, {'query_type': v})), st)]
        return super()._cls(I, cref, o, args, kw, st, node, fr)

    def states(self):
        if 'ctx' not in self._starts:
            rows, self.rows, mr, self.I.may_raise = self.rows, [], self.I.may_raise, None
            self._starts['ctx'] = self.starts(CTX)[:1]
            self.rows, self.I.may_raise = rows, mr
            if not self._starts['ctx']:
                raise AnalysisError('no start-up path of ' + CTX)
        return [s.copy() for s in self._starts['ctx']]

    def invoke(self, json, qtype='SELECT', rows=(), info=None, encrypted_cols=None, columns_info=True):
        """-> [(value | Exc, state)]"""
        self.json, self.qtype, self.rows = json, qtype, rows
        self.alter = json if isinstance(json, dict) and 'alter' in json else None
        out = []
        for st in self.states():
            f = self.I.mod_get(CTX, 'invoke', st)
            args = [lift(info or INFO, st), Sym('sql', 'str'),
                    NONE if encrypted_cols is None else lift(encrypted_cols, st)]
            out += self.I.call(f, args, {'columns_info': K(columns_info)}, st, None, None)
        return out
