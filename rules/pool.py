"""The connection pool (dbutils): who uses a session, in what state it is handed out, how many there are, and what happens
to a statement whose session fails.

The pool and the steady connection are propagated by the abstract interpreter over a stand-in driver (sa/stubs/driver.py)
whose calls are events and fail wherever the rule lets them; histories of requests are composed from the operations of the
pool, each applied to every state the previous ones lead to, and judged on the driver events alone."""
import os

from sa.absint import Interp
from sa.project import AnalysisError, Module
from sa.values import *

STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'stubs', 'driver.py')


class All:
    """every attribute is watched"""

    def __contains__(self, x):
        return True


class Pools:
    def __init__(self, project, watch=False):
        self.p = project
        with open(STUB) as fh:
            project.modules['sadriver'] = Module('sadriver', STUB, 'sadriver', fh.read(), False)
        self.fails = {}          # what -> set of 'lost'/'wrong' that may happen; value True: may, False: may not
        self.budget = 0          # failures per history
        self.alive = (NONE,)
        self.live = ()
        intr = {'saworld.lost': lambda *a: self._fail('lost', *a), 'saworld.wrong': lambda *a: self._fail('wrong', *a),
                'saworld.alive': self._alive, '.wait': self._wait}
        self.I = Interp(project, opaque=('saworld',), intrinsics=intr, watch_attrs=All() if watch else ())
        sts = self.I.start('dbutils.pooled_db', 'sadriver')
        if not sts:
            raise AnalysisError('dbutils.pooled_db cannot be loaded')
        self.st0 = sts[0]
        self.st0.trace = ()

    def _fail(self, how, I, args, kw, st, node, fr):
        what = args[1].v
        allowed = self.fails.get(what, ())
        n = st.tags.get('failures', 0)
        if how not in allowed or n >= self.budget:
            return [(FALSE, st)]
        s2 = st.copy()
        s2.tags['failures'] = n + 1
        I.event(s2, Event('call', 'fail', NONE, (args[0], K(what), K(how)), {}, node, s2.locks, NONE, fr and fr.fn))
        return [(TRUE, s2), (FALSE, st)]

    def _alive(self, I, args, kw, st, node, fr):
        return [(v, st.copy()) for v in self.alive]

    def _wait(self, I, args, kw, st, node, fr):
        """another thread runs while this one waits: nothing happens (a spurious wake-up), or it gives a connection back"""
        recv = args[0]
        I.event(st, Event('call', 'wait', recv, (), {}, node, st.locks, NONE, fr and fr.fn))
        out = []
        n = st.tags.get('waits', 0)
        st.tags['waits'] = n + 1
        if n == 0:
            out.append((NONE, st.copy()))
        for px in self.live:
            if st.tags.get(('closed', px)):
                continue
            s = st.copy()
            held, s.locks = s.locks, ()
            for v, s2 in self.method(px, 'close', s):
                s2.locks = held
                if v.__class__ is Exc:
                    continue
                s2.tags[('closed', px)] = True
                out.append((TRUE, s2))
        return out

    # ---- operations
    def method(self, obj, name, st, *args):
        out = []
        for f, s in self.I.getattr(obj, name, st, None, None):
            if f.__class__ is Exc:
                out.append((f, s))
            else:
                out += self.I.call(f, list(args), {}, s, None, None)
        return out

    def pool(self, **kw):
        st = self.st0.copy()
        cls = self.I.mod_get('dbutils.pooled_db', 'PooledDB', st)
        drv = st.mods['sadriver']
        drv = drv if isinstance(drv, V) else Ref(drv)
        kw = {k: lift(v, st) for k, v in kw.items()}
        kw.update(host=Sym('host', 'str'), user=Sym('user', 'str'))
        return self.I.call(cls, [drv], kw, st, None, None)

    def exc_name(self, v, st):
        x = v.val
        if isinstance(x, Ref) and isinstance(st.heap.get(x.oid), HInst):
            c = st.heap[x.oid].cls
            return st.heap[c.oid].name if isinstance(c, Ref) else getattr(c, 'name', '?')
        if isinstance(x, T) and x.args and isinstance(x.args[0], K):
            return x.args[0].v
        return repr(x)


def calls(evs, *names):
    """driver events: (what, connection or cursor, event)"""
    out = []
    for e in evs:
        if e.kind != 'call':
            continue
        if e.name == 'saworld.call' and (not names or e.args[1].v in names):
            out.append((e.args[1].v, e.args[0], e))
        elif e.name in ('saworld.connected', 'saworld.connecting') and (not names or e.name[8:] in names):
            out.append((e.name[8:], e.args[0], e))
        elif e.name in ('fail', 'wait') and e.name in names:
            out.append((e.name, e.args[0] if e.args else NONE, e))
        elif e.name == 'saworld.done' and 'done' in names:
            out.append(('done', e.args[0], e))
    return out


def con_of(x, st):
    """the raw connection of a cursor"""
    o = st.heap.get(x.oid) if isinstance(x, Ref) else None
    return o.attrs['con'] if o is not None and 'con' in o.attrs else x


def cls_name(x, st):
    c = st.heap[x.oid].cls
    return st.heap[c.oid].name


def raw_of(P, px, st):
    """the raw connection a pooled connection works on, or the exception it answers with"""
    s = st.copy()
    n = len(s.trace)
    sv, P.fails = P.fails, {}
    try:
        rs = P.method(px, 'cursor', s)
    finally:
        P.fails = sv
    raws = set()
    for v, s2 in rs:
        if v.__class__ is Exc:
            raws.add('EXC ' + P.exc_name(v, s2))
        else:
            cs = [x for w, x, e in calls(trace(s2)[n:], 'cursor')]
            raws.add(cs[-1] if cs else None)
    return raws.pop() if len(raws) == 1 else None


def trace(st):
    return st.trace


class Hist:
    """one history: the state it leads to and what the requests did"""

    def __init__(self, st, pool, px=(), live=(), shared=(), began=(), ops=''):
        self.st, self.pool, self.px, self.live = st, pool, px, live
        self.shared, self.began, self.ops = shared, began, ops

    def child(self, st, op, **kw):
        h = Hist(st, self.pool, self.px, self.live, self.shared, self.began, (self.ops + ' ' + op).strip())
        for k, v in kw.items():
            setattr(h, k, v)
        return h


def session_events(h, since):
    return trace(h.st)[since:]


def opened(st):
    o = []
    for w, x, e in calls(trace(st), 'connected', 'close'):
        if w == 'connected':
            o.append(x)
        elif isinstance(x, Ref) and cls_name(x, st) == 'Connection' and x in o:
            o.remove(x)
    return o


def histories(P, depth, judge, share=False, begin=False, **cfg):
    """every history of up to `depth` operations; judge(kind, before, after state, result, since) decides each step"""
    todo = []
    for v, st in P.pool(**cfg):
        if v.__class__ is Exc:
            judge('make', None, None, v, 0, st)
            continue
        h = Hist(st, v)
        judge('make', None, h, v, 0, st)
        todo.append(h)
    n = 0
    for d in range(depth):
        new = []
        for h in todo:
            ops = [('take', False)] + ([('take', True)] if share else [])
            ops += [('close', i) for i in range(len(h.px))]
            ops += [('use', i) for i in range(len(h.px)) if i not in h.live]
            if begin:
                ops += [('begin', i) for i in h.live if i not in h.began]
            for op, arg in ops:
                st = h.st.copy()
                since = len(trace(st))
                st.tags['waits'] = 0
                P.live = tuple(h.px[i] for i in h.live)
                n += 1
                if op == 'take':
                    rs = P.method(h.pool, 'connection', st, K(arg))
                elif op == 'use':
                    rs = P.method(h.px[arg], 'cursor', st)
                else:
                    rs = P.method(h.px[arg], 'close' if op == 'close' else 'begin', st)
                if not rs and op != 'take':
                    raise AnalysisError('no path through %s' % op)
                for v, s in rs:
                    live = tuple(i for i in h.live if not s.tags.get(('closed', h.px[i])))
                    h2 = h.child(s, '%s%s' % (op, '' if op == 'take' and not arg else '(%s)' % arg), live=live)
                    if op == 'take' and v.__class__ is not Exc:
                        h2.px, h2.live = h.px + (v,), live + (len(h.px),)
                        if arg:
                            h2.shared = h.shared + (len(h.px),)
                    elif op == 'close':
                        h2.live = tuple(i for i in live if i != arg)
                        s.tags[('closed', h.px[arg])] = True
                    elif op == 'begin':
                        h2.began = h.began + (arg,)
                    if judge(op, h, h2, v, since, s) and op != 'use':
                        new.append(h2)
        todo = new
    return n


CONFIGS = [dict(mincached=a, maxcached=b, maxconnections=c, blocking=bl)
           for a in (0, 1) for b in (0, 1, 2) for c in (0, 1, 2) for bl in (False, True)
           if (not b or a <= b) and (not c or (b <= c and a <= c))]


def name(cfg):
    return ', '.join('%s=%s' % (k, cfg[k]) for k in sorted(cfg) if cfg[k] or cfg[k] is False and k == 'reset') or 'defaults'


def check_D01(project, rep):
    P = Pools(project)
    depth = 4 if rep.tier == 'quick' else 5

    def judge(op, h, h2, v, since, s):
        rep.count('operations')
        key = '%s of a closed connection' % op
        if op == 'make':
            return rep.check(v.__class__ is not Exc, 'pool cannot be made', 'PooledDB(%s): %r' % (name(cfg), v))
        if op == 'use':
            return rep.check(v.__class__ is Exc, 'use after close', 'after "%s" on a pool with %s, the closed connection still '
                             'gives cursors' % (h2.ops, name(cfg)), 'a closed pooled connection refuses use')
        if v.__class__ is Exc:
            return op == 'take'
        raws = {}
        for i in h2.live:
            r = raw_of(P, h2.px[i], s)
            rep.check(isinstance(r, Ref), 'live connection unusable', 'after "%s" (%s) connection %d gives %r'
                      % (h2.ops, name(cfg), i, r))
            for j, r2 in raws.items():
                both = i in h2.shared and j in h2.shared
                rep.check(r != r2 or both, 'one session, two users', 'after "%s" on a pool with %s, connections %d and %d '
                          'work on the same session' % (h2.ops, name(cfg), j, i), 'sessions of live connections differ')
            raws[i] = r
        if op == 'take' and h2.live[-1] in h2.shared:
            r = raws.get(h2.live[-1])
            for j in h2.live[:-1]:
                rep.check(not (j in h2.began and raws[j] == r), 'session in a transaction shared',
                          'after "%s" (%s) a session in a transaction is shared' % (h2.ops, name(cfg)))
        if op == 'take':
            r = raws.get(h2.live[-1])
            rep.check(not isinstance(r, Ref) or r in opened(s), 'closed session handed out',
                      'after "%s" (%s) the session handed out is closed' % (h2.ops, name(cfg)))
        elif op == 'close':
            for i in h2.live:
                rep.check(not isinstance(raws[i], Ref) or raws[i] in opened(s), 'session of another closed',
                          'after "%s" (%s) the session of connection %d is closed' % (h2.ops, name(cfg), i))
        return True
    for cfg in CONFIGS:
        histories(P, depth, judge, **cfg)
    for cfg in [dict(maxshared=m, maxconnections=c, maxcached=k, blocking=b) for m in (1, 2) for c in (0, 2)
                for k in (0, 1) for b in (False, True)]:
        histories(P, depth, judge, share=True, begin=True, **cfg)
    rep.need('operations', 500)
    lockset(project, rep)


def lockset(project, rep):
    """every attribute of the pool that changes after it was made is read and written with one lock held"""
    P = Pools(project, watch=True)
    seen, changed, locks = {}, set(), {}

    def judge(op, h, h2, v, since, s):
        if op == 'make':
            if h2 is not None:
                base[0] = {k: P.I.freeze(x, s) for k, x in s.heap[h2.pool.oid].attrs.items()}
            return True
        pool = h2.pool
        for k, x in s.heap[pool.oid].attrs.items():
            if base[0].get(k) != P.I.freeze(x, s):
                changed.add(k)
        for e in trace(s)[since:]:
            if e.kind in ('getattr', 'setattr') and e.recv == pool:
                seen.setdefault(e.name, {}).setdefault((e.kind, getattr(e.node, 'lineno', 0)), set()).add(
                    (frozenset(e.locks), e.fn.name if e.fn is not None else '?'))
        return v.__class__ is not Exc
    base = [None]
    for cfg in (dict(maxcached=1, maxconnections=1), dict(maxconnections=1, blocking=True), dict(mincached=1)):
        histories(P, 3, judge, **cfg)
    histories(P, 3, judge, share=True, maxshared=1, blocking=True, maxconnections=1)
    rep.check(bool(changed), 'pool state', 'no attribute of the pool changes')
    for a in sorted(changed):
        sites = seen.get(a, {})
        common = None
        for (kind, line), ls in sites.items():
            for lk, fn in ls:
                common = lk if common is None else common & lk
        for (kind, line), ls in sorted(sites.items()):
            for lk, fn in ls:
                rep.count('accesses')
                rep.check(bool(lk), 'unlocked access to %s in %s' % (a, fn), '%s of the pool is %s in %s (line %s) without the '
                          'lock' % (a, 'read' if kind == 'getattr' else 'written', fn, line),
                          '%s: %s in %s holds the lock' % (a, kind, fn))
        rep.check(bool(common) or not sites, 'no common lock for ' + a, 'no lock is held at every access to ' + a)
    rep.need('accesses', 5)


def check_D02(project, rep):
    P = Pools(project)
    depth = 4 if rep.tier == 'quick' else 5
    for reset in (True, False, None):
        for cfg in (dict(maxcached=1, reset=reset), dict(reset=reset), dict(mincached=1, maxconnections=2, reset=reset)):
            def judge(op, h, h2, v, since, s):
                rep.count('operations')
                if op == 'make' or v.__class__ is Exc or op == 'use':
                    return h2 is not None
                ev = trace(s)[since:]
                if op == 'close':
                    i = [i for i in h.live if i not in h2.live]
                    if not i:
                        return True
                    r = raw_of(P, h.px[i[0]], h.st)
                    if any(raw_of(P, h.px[j], h.st) == r for j in h2.live):
                        return True         # another one still shares it
                    cleaned = [x for w, x, e in calls(ev, 'rollback', 'close') if x == r]
                    if reset or i[0] in h.began:
                        rep.check(cleaned, 'returned without rollback', 'after "%s" (%s) the session goes back to the pool '
                                  'without a rollback' % (h2.ops, name(cfg)), 'rollback before a session is reused')
                if op == 'take':
                    r = raw_of(P, h2.px[-1], s)
                    rep.check(isinstance(r, Ref), 'no session', 'after "%s": %r' % (h2.ops, r))
                    fresh = [x for w, x, e in calls(ev, 'connected')]
                    used = [raw_of(P, h.px[j], h.st) for j in h.live]
                    rep.check(r in fresh or r in used or [x for w, x, e in calls(ev, 'ping') if x == r], 'reused without a check',
                              'after "%s" (%s) a pooled session is handed out without being pinged' % (h2.ops, name(cfg)),
                              'an idle session is pinged before it is handed out')
                    t = steady_transaction(P, h2.px[-1], s)
                    rep.check(not t, 'handed out in a transaction', 'after "%s" (%s) the connection handed out is in a '
                              'transaction' % (h2.ops, name(cfg)))
                return True
            histories(P, depth, judge, begin=True, **cfg)
            histories(P, depth, judge, share=True, begin=True, **dict(cfg, maxshared=1))
            histories(P, depth - 1, judge, share=True, begin=True, **dict(cfg, maxshared=2))
    # an idle session that has died is replaced before it is handed out
    for alive, fails in ((FALSE, {}), (NONE, {'ping': ('lost',)}), (NONE, {'ping': ('wrong',)})):
        for st, pool, px in taken(P, maxcached=1):
            for v, s in P.method(px, 'close', st):
                P.alive, P.fails, P.budget = (alive,), fails, 1
                n = len(trace(s))
                old = opened(s)
                rs = P.method(pool, 'connection', s, FALSE)
                P.alive, P.fails, P.budget = (NONE,), {}, 0
                for v2, s2 in rs:
                    if fails and not s2.tags.get('failures'):
                        continue
                    rep.count('dead_sessions')
                    if v2.__class__ is Exc:
                        rep.ok()
                        continue
                    r = raw_of(P, v2, s2)
                    rep.check(r not in old, 'dead session handed out', 'an idle session whose ping fails (%s) is handed out again'
                              % (fails or 'answers False'), 'a dead idle session is replaced')
                    rep.check(not set(old) & set(opened(s2)), 'dead session not closed', 'the dead session stays open')
    # the commands preparing a session run on every new one, before it is used, and a session they fail on is not used
    for fails, budget in (({}, 0), ({'execute': ('lost', 'wrong')}, 1), ({'cursor': ('lost',)}, 1)):
        P.fails, P.budget = fails, budget
        rs = P.pool(maxcached=1, setsession=['SET a', 'SET b'])
        for v, st in rs:
            for c, s in P.method(v, 'connection', st, FALSE):
                rep.count('prepared')
                if c.__class__ is Exc:
                    rep.check(s.tags.get('failures'), 'setsession', 'preparing a session fails: %r' % (c,))
                    rep.check(not opened(s), 'unprepared session left open', 'a session whose preparation fails stays open')
                    continue
                P.fails, P.budget = {}, 0
                r = raw_of(P, c, s)
                P.fails, P.budget = fails, budget
                done = [e.args[2].items[0].v for w, x, e in calls(trace(s), 'done')
                        if e.args[1].v == 'execute' and con_of(x, s) == r]
                rep.check(done == ['SET a', 'SET b'], 'unprepared session', 'the session handed out has run %r' % (done,),
                          'every new session runs the preparing commands')
        P.fails, P.budget = {}, 0
    rep.need('operations', 100)
    rep.need('dead_sessions', 3)
    rep.need('prepared', 3)


def steady_transaction(P, px, st):
    """is the connection behind px marked as in a transaction?  observed: a failing commit-less statement is not repeated"""
    s = st.copy()
    n = len(trace(s))
    rs = P.method(px, 'cursor', s)
    sv = P.fails, P.budget
    out = False
    for c, s2 in rs:
        if c.__class__ is Exc:
            continue
        P.fails, P.budget = {'execute': ('lost',)}, s2.tags.get('failures', 0) + 1
        k = len(trace(s2))
        for v, s3 in P.method(c, 'execute', s2, Sym('probe', 'str')):
            if s3.tags.get('failures', 0) > st.tags.get('failures', 0) and \
                    len(calls(trace(s3)[k:], 'execute')) < 2:
                out = True
        P.fails, P.budget = sv
    return out


def taken(P, **cfg):
    for v, st in P.pool(**cfg):
        if v.__class__ is Exc:
            continue
        for px, s in P.method(v, 'connection', st, FALSE):
            if px.__class__ is not Exc:
                yield s, v, px


def check_D03(project, rep):
    P = Pools(project)
    depth = 4 if rep.tier == 'quick' else 5

    def judge(op, h, h2, v, since, s):
        rep.count('operations')
        limit = cfg.get('maxconnections', 0)
        if op == 'make':
            n = len(calls(trace(s), 'connected'))
            return rep.check(v.__class__ is not Exc and n == cfg.get('mincached', 0), 'mincached',
                             'a pool with %s opens %d sessions' % (name(cfg), n), 'mincached sessions are opened')
        ev = trace(s)[since:]
        waits = calls(ev, 'wait')
        text = 'after "%s" on a pool with %s ' % (h2.ops, name(cfg))
        if op == 'take':
            full = limit and users(P, h) >= limit and not (h2.ops.endswith('(True)') and shareable(P, h, cfg))
            if v.__class__ is Exc:
                rep.check(P.exc_name(v, s) == 'TooManyConnections', 'taking fails', text + 'the request gets ' + repr(v))
                rep.check(full or blocked(P, h, h2, cfg), 'refused below the limit', text + 'a connection is refused although only %d are in '
                          'use' % users(P, h), 'connections are refused at the limit only')
                rep.check(not cfg.get('blocking'), 'refused instead of waiting', text + 'a blocking pool refuses')
                return True
            if not cfg.get('blocking'):
                rep.check(not waits, 'waits', text + 'a pool that must not block waits')
            if waits:
                rep.check(full or blocked(P, h, h2, cfg), 'waits below the limit', text + 'a request waits although connections are left')
            for w, x, e in waits:
                rep.check(e.recv in e.locks, 'waits without the lock', text + 'wait() is called without holding the lock')
            rep.check(not limit or users(P, h2) <= limit, 'limit exceeded', text + '%d sessions are in use, %s are allowed'
                      % (users(P, h2), limit), 'sessions in use stay within maxconnections')
        elif op == 'close':
            gone = [i for i in h.live if i not in h2.live]
            wakes = [e for e in ev if e.kind == 'call' and e.name in ('notify', 'notify_all')]
            if v.__class__ is Exc:
                rep.bad('closing fails', text + 'close() raises ' + repr(v))
                return False
            if gone and users(P, h2) < users(P, h):
                rep.check(wakes, 'nobody is woken', text + 'no waiting request is woken',
                          'giving a connection back wakes a waiting request')
                for e in wakes:
                    rep.check(e.recv in e.locks, 'wakes without the lock', text + 'notify() is called without the lock')
        idle = len(opened(s)) - users(P, h2)
        if cfg.get('maxcached'):
            rep.check(idle <= cfg['maxcached'], 'too many idle sessions', text + '%d idle sessions are kept' % idle,
                      'idle sessions stay within maxcached')
        if op == 'take' and v.__class__ is not Exc:
            before = len(opened(h.st)) - users(P, h)
            if before and not waits and not (len(h2.live) and h2.live[-1] in h2.shared):
                rep.check(not calls(ev, 'connected'), 'idle session not reused', text + 'a new session is opened although one is '
                          'idle', 'idle sessions are reused')
        return v.__class__ is not Exc
    for cfg in CONFIGS:
        histories(P, depth, judge, **cfg)
    for cfg in [dict(maxshared=m, maxconnections=c, blocking=b) for m in (1, 2) for c in (0, 2) for b in (False, True)]:
        histories(P, depth, judge, share=True, **cfg)
        histories(P, 3 if rep.tier == 'quick' else depth, judge, share=True, begin=True, **cfg)
    # failures of the driver do not change the count
    for fails in ({'connect': ('lost',)}, {'rollback': ('lost', 'wrong')}, {'rollback': ('lost',), 'connect': ('lost',)},
                  {'close': ('lost', 'wrong')}, {'ping': ('lost', 'wrong'), 'connect': ('lost',)}):
        for maxcached in (0, 1):
            counted(P, rep, fails, maxcached)
    # closing the pool closes the idle sessions and wakes the waiting requests
    for st, pool, px in taken(P, maxcached=2):
        for v, s in P.method(px, 'close', st):
            k = len(trace(s))
            for v2, s2 in P.method(pool, 'close', s):
                rep.check(not opened(s2), 'pool closed, session open', 'an idle session stays open when the pool is closed',
                          'closing the pool closes its idle sessions')
                rep.check([e for e in trace(s2)[k:] if e.kind == 'call' and e.name == 'notify_all'], 'pool closed, nobody woken',
                          'requests waiting when the pool is closed are not woken')
    rep.need('operations', 500)


def users(P, h):
    return len({raw_of(P, h.px[i], h.st) for i in h.live})


def shareable(P, h, cfg):
    """a shared session that is not in a transaction can take one more user"""
    return any(i in h.shared and not any(j in h.began for j in h.live if raw_of(P, h.px[j], h.st) ==
                                         raw_of(P, h.px[i], h.st)) for i in h.live)


def blocked(P, h, h2, cfg):
    """a shared connection was asked for, and all that may be shared are in a transaction"""
    if not h2.ops.endswith('(True)'):
        return False
    raws = {raw_of(P, h.px[i], h.st) for i in h.live if i in h.shared}
    return len(raws) >= cfg.get('maxshared', 0) and not shareable(P, h, cfg)


def counted(P, rep, fails, maxcached):
    """with a limit of one: after any failing history, a connection can be had exactly when none is in use"""
    P.fails, P.budget = fails, 3
    todo = [Hist(st, v) for v, st in P.pool(maxconnections=1, maxcached=maxcached) if v.__class__ is not Exc]
    for d in range(4):
        new = []
        for h in todo:
            for op in ('take', 'close'):
                if op == 'close' and not h.live:
                    continue
                st = h.st.copy()
                rs = P.method(h.pool, 'connection', st, FALSE) if op == 'take' else P.method(h.px[-1], 'close', st)
                for v, s in rs:
                    h2 = h.child(s, op)
                    rep.count('failing_operations')
                    if op == 'take' and v.__class__ is not Exc:
                        h2.px, h2.live = h.px + (v,), (0,)
                    elif op == 'close':
                        h2.live = ()
                    text = 'after "%s" with failing %s, ' % (h2.ops, '/'.join(sorted(fails)))
                    if op == 'take':
                        if v.__class__ is Exc and P.exc_name(v, s) == 'TooManyConnections':
                            rep.check(h.live, 'connection lost from the count', text + 'a connection is refused although none is in '
                                      'use', 'the count survives failures of the driver')
                        elif v.__class__ is not Exc:
                            rep.check(not h.live, 'two in use', text + 'two connections are in use, one is allowed')
                        else:
                            rep.check(s.tags.get('failures'), 'take fails', text + repr(v))
                    new.append(h2)
        todo = new[:400]
    P.fails, P.budget = {}, 0


def check_D04(project, rep):
    P = Pools(project)
    lost = {w: ('lost',) for w in ('execute', 'cursor', 'connect')}
    wrong = {w: ('lost', 'wrong') for w in ('execute', 'cursor', 'connect')}
    budget = 2 if rep.tier == 'quick' else 4
    for meth in ('execute', 'executemany', 'callproc'):
        for begun in (False, True):
            for usage in (0, 1):
                for fails in (lost, wrong):
                    f2 = {(meth if k == 'execute' else k): v for k, v in fails.items()}
                    statement(P, rep, meth, begun, usage, f2, budget + 1)
    for what in ('commit', 'rollback'):
        for fails in ({what: ('lost',)}, {what: ('wrong',)}, {what: ('lost',), 'connect': ('lost',)}):
            for begun in (False, True):
                ending(P, rep, what, begun, fails)
    # ping inside a transaction never replaces the session
    for ping in (1, 2, 4, 7):
        for st, pool, px in taken(P, ping=ping):
            for v, s in P.method(px, 'begin', st):
                r = raw_of(P, px, s)
                P.alive = (FALSE,)
                k = len(trace(s))
                for c, s2 in P.method(px, 'cursor', s):
                    if c.__class__ is Exc:
                        continue
                    for v2, s3 in P.method(c, 'execute', s2, Sym('q', 'str')):
                        rep.count('pings')
                        rep.check(not calls(trace(s3)[k:], 'connected'), 'session replaced in a transaction',
                                  'with ping=%d a session that does not answer is replaced inside a transaction' % ping,
                                  'no reconnect inside a transaction')
                P.alive = (NONE,)
    rep.need('statements', 20)
    rep.need('endings', 8)
    rep.need('pings', 4)


def statement(P, rep, meth, begun, usage, fails, budget):
    q = Sym('q', 'str')
    for st, pool, px in taken(P, maxusage=usage):
        starts = [(NONE, st)]
        if begun:
            starts = P.method(px, 'begin', st)
        for v, s in starts:
            # one statement that works first: it is part of the transaction
            for c0, s1 in P.method(px, 'cursor', s):
                for v0, s2 in P.method(c0, 'execute', s1, Sym('first', 'str')):
                    first = [con_of(x, s2) for w, x, e in calls(trace(s2), 'execute')]
                    P.fails, P.budget = fails, budget
                    s2.tags['failures'] = 0
                    k = len(trace(s2))
                    for c, s3 in P.method(px, 'cursor', s2):
                        rs = [(c, s3)] if c.__class__ is Exc else P.method(c, meth, s3, q)
                        for v3, s4 in rs:
                            settle(P, rep, meth, begun, usage, px, first, k, v3, s4)
                    P.fails, P.budget = {}, 0


def settle(P, rep, meth, begun, usage, px, first, k, v, s):
    ev = trace(s)[k:]
    tried = [(con_of(x, s), e) for w, x, e in calls(ev, meth)]
    done = [(con_of(x, s), e) for w, x, e in calls(ev, 'done') if e.args[1].v == meth]
    failures = [e for w, x, e in calls(ev, 'fail')]
    rep.count('statements')
    where = '%s %s a transaction%s, failing %s' % (meth, 'in' if begun else 'outside', ', maxusage=%d' % usage if usage else '', ', '.join(
        '%s (%s)' % (e.args[1].v, e.args[2].v) for e in failures) or 'nothing')
    if begun:
        rep.check(len(tried) <= 1, 'repeated in a transaction', '%s: the statement is sent %d times' % (where, len(tried)),
                  'a statement of a transaction is sent once')
        for con, e in tried:
            rep.check(con in first, 'moved in a transaction', '%s: the statement runs on another session than the statements '
                      'before it' % where, 'statements of a transaction run on one session')
        if failures and not (done and v.__class__ is not Exc):
            rep.check(v.__class__ is Exc, 'failure hidden in a transaction', '%s: the failure is not reported' % where,
                      'failures inside a transaction are raised')
    if v.__class__ is Exc:
        rep.check(failures, 'fails without a failure', '%s: %r' % (where, v))
        rep.check(not done, 'reported as failed, but done', '%s: raises although the statement ran' % where)
        n = P.exc_name(v, s)
        rep.check(n in ('OperationalError', 'ProgrammingError'), 'other error', '%s: the error raised is %s' % (where, n))
    else:
        rep.check(len(done) == 1, 'done %d times' % len(done), '%s: answered although the statement ran %d times' % (where, len(done)),
                  'an answered statement ran once')
        if done:
            rep.check(v.__class__ is T and v.op == 'call' and v.args[0] == K('saworld.result'), 'result',
                      '%s: the result is %r' % (where, v))
            # what a commit confirms is what was executed
            sv = P.fails, P.budget
            P.fails, P.budget = {}, 0
            n = len(trace(s))
            for v2, s2 in P.method(px, 'commit', s.copy()):
                cs = [x for w, x, e in calls(trace(s2)[n:], 'commit')]
                rep.check(cs == [done[0][0]], 'commit elsewhere', '%s: commit() goes to another session than the statement' % where,
                          'the commit goes to the session of the statement')
            P.fails, P.budget = sv
    wrong = [i for i, e in enumerate(failures) if e.args[2].v == 'wrong']
    if failures and failures[0].args[2].v == 'wrong' and failures[0].args[1].v == meth:
        rep.check(len(tried) == 1, 'refused statement repeated', '%s: a statement the backend refuses is sent again' % where,
                  'a refused statement is not sent again')
    live = opened(s)
    rep.check(len(live) <= 1, 'session leaked', '%s: %d sessions are left open' % (where, len(live)), 'no session is leaked')


def ending(P, rep, what, begun, fails):
    for st, pool, px in taken(P):
        starts = P.method(px, 'begin', st) if begun else [(NONE, st)]
        for v, s in starts:
            k = len(trace(s))
            P.fails, P.budget = fails, 2
            for v2, s2 in P.method(px, what, s):
                ev = trace(s2)[k:]
                n = len(calls(ev, what))
                failed = [e for w, x, e in calls(ev, 'fail') if e.args[1].v == what]
                rep.count('endings')
                rep.check(n == 1, '%s sent %d times' % (what, n), 'a %s with failing %s is sent %d times' % (what, fails, n),
                          '%s is sent once' % what)
                rep.check((v2.__class__ is Exc) == bool(failed), what + ' failure hidden', 'a %s that fails is reported as %r'
                          % (what, v2), 'a failing %s is raised' % what)
                if v2.__class__ is Exc:
                    rep.check(len(opened(s2)) <= 1, 'session leaked', 'after a failing %s %d sessions are open'
                              % (what, len(opened(s2))))
                P.fails, P.budget = {}, 0
                t = steady_transaction(P, px, s2)
                if v2.__class__ is not Exc:
                    rep.check(not t, 'transaction never ends', 'after %s the connection is still in a transaction' % what)
                P.fails, P.budget = fails, 2
            P.fails, P.budget = {}, 0
