"""The cipher layer: value encoding, round trips, determinism and keying, order preservation, fuzzy grams, aggregates.

The library primitives (AES, SM4, SHA-256, base64, Paillier) are algebraic constructors with the identities their
documentation states; the repository code around them is propagated by the dataflow engine, and what it computes is
compared after rewriting with those identities."""
from fractions import Fraction as Q

from .common import *
from sa.absint import Interp

ENC = 'scheduler.crypto.encrypt.'
OPEMOD = 'scheduler.crypto.ope.ope'
RANDOM = ('random.', 'secrets.', 'uuid.', 'time.', 'datetime.', 'os.urandom', 'os.getrandom', 'numpy.random',
          'cryptography.fernet')


# ------------------------------------------------------------------------------------------ C10: encoding
class Approx:
    """a*x + b with an absolute error up to e (integer truncation)"""

    def __init__(self, a, b, e=Q(0)):
        self.a, self.b, self.e = Q(a), Q(b), Q(e)


class NotAffine(Exception):
    pass


def affine(t, sign):
    """term over the unknown value -> Approx; sign is +1/-1: the half line the value is assumed on"""
    if isinstance(t, K) and isinstance(t.v, (int, float)) and not isinstance(t.v, bool):
        return Approx(0, Q(t.v))
    if isinstance(t, Sym):
        return Approx(1, 0)
    if not isinstance(t, T):
        raise NotAffine(repr(t))
    op, args = t.op, t.args
    if op == 'call':
        name, recv, a = args[0].v, args[1], args[2].items
        if name in ('math.floor', 'math.ceil', 'math.trunc') and len(a) == 1:
            op, args = 'int', a
        elif name in ('math.fabs', 'builtins.abs'):
            op, args = 'abs', a
        elif name in ('ast.literal_eval', 'decimal.Decimal', 'fractions.Fraction') and len(a) == 1:
            return affine(a[0], sign)
        elif name == 'math.copysign' and len(a) == 2:
            x, s = affine(a[0], sign), affine(a[1], sign)
            neg = s.b == 0 and s.a * sign < 0
            if s.b or not s.a:
                raise NotAffine(repr(t))
            if x.b == 0 and x.a:
                flip = (x.a * sign < 0) != neg
                return Approx(-x.a, 0, x.e) if flip else x
            op, args = 'mulsign', ()
            return Approx(-x.a, -x.b, x.e) if neg else x
    if op == 'neg':
        x = affine(args[0], sign)
        return Approx(-x.a, -x.b, x.e)
    if op in ('float', 'pos') and len(args) == 1:
        return affine(args[0], sign)
    if op in ('int', 'round') and len(args) == 1:
        x = affine(args[0], sign)
        return x if x.a in (0, 1) and x.b.denominator == 1 and x.e == 0 and isinstance(args[0], Sym) and \
            args[0].kind == 'int' else Approx(x.a, x.b, x.e + 1)
    if op == 'round':
        x = affine(args[0], sign)
        if isinstance(args[1], K) and isinstance(args[1].v, int):
            return Approx(x.a, x.b, x.e + Q(10) ** -args[1].v / 2)
        raise NotAffine(repr(t))
    if op == 'abs':
        x = affine(args[0], sign)
        if x.b:
            raise NotAffine(repr(t))
        return Approx(abs(x.a) * sign, 0, x.e)
    if op in '+-*/' and len(args) == 2 or op == '//':
        x, y = affine(args[0], sign), affine(args[1], sign)
        if op == '+':
            return Approx(x.a + y.a, x.b + y.b, x.e + y.e)
        if op == '-':
            return Approx(x.a - y.a, x.b - y.b, x.e + y.e)
        if op == '*':
            if x.a and y.a:
                raise NotAffine(repr(t))
            c, z = (x, y) if not x.a else (y, x)
            return Approx(z.a * c.b, z.b * c.b, z.e * abs(c.b))
        if y.a or not y.b:
            raise NotAffine(repr(t))
        return Approx(x.a / y.b, x.b / y.b, x.e / abs(y.b) + (1 if op == '//' else 0))
    if op == '**' and all(isinstance(a, K) for a in args):
        return Approx(0, Q(args[0].v ** args[1].v))
    raise NotAffine(repr(t))


INF = Q(10) ** 80


class Piece:
    def __init__(self, lo, lo_open, hi, hi_open, f, what):
        self.lo, self.lo_open, self.hi, self.hi_open, self.f, self.what = lo, lo_open, hi, hi_open, f, what

    def has(self, x):
        return (self.lo < x or self.lo == x and not self.lo_open) and (x < self.hi or x == self.hi and not self.hi_open)

    def at(self, x):
        return self.f.a * x + self.f.b


def pieces(paths):
    """[(value | Exc, facts)] -> [Piece]"""
    res = []
    for v, facts in paths:
        for sign in (1, -1):
            lo, lo_open, hi, hi_open = (Q(0), False, INF, False) if sign > 0 else (-INF, False, Q(0), True)
            empty = False
            for k, t in facts.items():
                if k[0] == 'num' and isinstance(t, bool):
                    f = affine(k[2], sign)
                    if f.e:
                        raise NotAffine('comparison of a rounded value')
                    c, strict = Q(k[3]), k[1] == '<'
                    if not f.a:
                        ok = f.b < c if strict else f.b <= c
                        empty |= ok != t
                        continue
                    bound = (c - f.b) / f.a
                    less = t == (f.a > 0)               # x below the bound
                    opened = strict if t else not strict
                    if less:
                        if (bound, not opened) < (hi, not hi_open):
                            hi, hi_open = bound, opened
                    elif (bound, opened) > (lo, lo_open):
                        lo, lo_open = bound, opened
                elif k[0] == 'truth' and isinstance(t, bool):
                    f = affine(k[1], sign)
                    if not t:
                        z = -f.b / f.a
                        lo, lo_open, hi, hi_open = max(lo, z), False, min(hi, z), False
                elif k[0] == 'eq' and t is True:
                    a, b = [affine(x, sign) for x in k[1]] if len(k[1]) == 2 else (None, None)
                    if a is None or a.a == b.a:
                        continue
                    z = (b.b - a.b) / (a.a - b.a)
                    if not (lo <= z <= hi):
                        empty = True
                    lo, lo_open, hi, hi_open = z, False, z, False
            if empty or lo > hi or lo == hi and (lo_open or hi_open):
                continue
            if isinstance(v, Exc) or v == NONE:
                continue
            res.append(Piece(lo, lo_open, hi, hi_open, affine(v, sign), v))
    return res


def tests_points(ps, lo, hi):
    bs = sorted({b for p in ps for b in (p.lo, p.hi) if lo <= b <= hi} | {lo, hi})
    pts = []
    for i, b in enumerate(bs):
        pts.append(b)
        if i + 1 < len(bs):
            pts.append((b + bs[i + 1]) / 2)
    return pts


def near(a, b, scale):
    return abs(a - b) <= Q(1, 10 ** 9) * max(abs(scale), 1)


class Codec:
    def __init__(self, p):
        self.I = Interp(p, opaque=EXT_OPAQUE, intrinsics={'ast.literal_eval': self.literal})
        starts = [s for _, s in self.I.import_module(CRYPTO_MOD, State())]
        if not starts:
            raise AnalysisError('no start-up path of ' + CRYPTO_MOD)
        self.st = starts[0]

    def literal(self, I, args, kw, st, node, fr):
        v = args[0]
        if isinstance(v, Sym) and v.kind == 'str':
            return [(Sym(v.name + '#', 'int'), st)]
        return [(I.exc('ValueError', 'malformed node', node), st)]

    def run(self, fn, x, typ):
        f = self.I.mod_get(CRYPTO_MOD, fn, self.st)
        return [(v, s.facts) for v, s in self.I.call(f, [x, K(typ)], {}, self.st.copy(), None, None)]


def check_C10(p, rep):
    c = Codec(p)
    limit = {'float': Q(10) ** 20, 'double': Q(10) ** 65}
    for typ in ('float', 'double'):
        try:
            enc = pieces(c.run('encode', Sym('x', 'float'), typ))
            decs = [('text', pieces(c.run('decode', Sym('y', 'str'), typ))),
                    ('number', pieces(c.run('decode', Sym('y', 'int'), typ)))]
        except NotAffine as e:
            raise AnalysisError('encoding of %s is not piecewise affine: %s' % (typ, str(e)[:200]))
        lim = limit[typ]
        rep.count('encode_pieces', len(enc))
        where = 'encode(%s)' % typ
        for x in tests_points(enc, -lim, lim):
            here = [q for q in enc if q.has(x)]
            rep.check(here, where + ': no value', 'a value %s has no encoding' % float(x), None)
            rep.check(len({q.at(x) for q in here}) <= 1, where + ': ambiguous', 'at %s' % float(x))
        for q in enc:
            rep.check(q.f.a > 0 or q.lo == q.hi, where + ': not increasing',
                      'falls or stays on [%.3g, %.3g]' % (q.lo, q.hi), '%s increases on [%.3g, %.3g] with slope %.3g' % (
                          where, q.lo, q.hi, q.f.a))
            rep.check(q.f.e <= 1, where + ': precision', 'loses %.3g units on [%.3g, %.3g]' % (q.f.e, q.lo, q.hi))
        for b in tests_points(enc, -lim, lim)[::2]:
            left = [q.at(b) for q in enc if q.lo < b <= q.hi]
            right = [q.at(b) for q in enc if q.lo <= b < q.hi]
            at = [q.at(b) for q in enc if q.has(b)]
            for l in left + at:
                for r in right + at:
                    if l in at and r in left and l not in left:
                        continue
                    rep.check(l <= r or near(l, r, l), where + ': order broken',
                              'values around %s are out of order: %.6g before %.6g' % (float(b), l, r))
        for how, dec in decs:
            rep.count('decode_pieces', len(dec))
            dn = 'decode(%s) of a %s' % (typ, how)
            if not rep.check(dec, dn + ': no value', 'nothing is decoded'):
                continue
            for e in enc:
                lo, hi = max(e.lo, -lim), min(e.hi, lim)
                if lo > hi:
                    continue
                pts = []
                for x in tests_points([Piece(lo, False, hi, False, e.f, '')] + [
                        Piece((d.lo - e.f.b) / e.f.a, False, (d.hi - e.f.b) / e.f.a, False, e.f, '') for d in dec
                        if e.f.a], lo, hi):
                    pts.append(x)
                for x in pts:
                    y = e.at(x)
                    slack = 1 + abs(y) / 10 ** 12
                    cover = [d for d in dec if d.has(y)] or [d for d in dec if d.has(y - slack) or d.has(y + slack)]
                    rep.check(cover, dn + ': no value', 'the encoding of %.6g cannot be decoded' % x)
                    for d in cover:
                        z = d.at(y)
                        rep.check(near(z, x, x), dn + ': not the inverse',
                                  'encode then decode turns %.12g into %.12g' % (x, z),
                                  '%s after encode is the identity around %.6g' % (dn, x))
                for d in dec:
                    a, b = max(e.at(lo), d.lo), min(e.at(hi), d.hi)
                    if a < b and b - a > 2 + abs(a) / 10 ** 11:
                        rep.check(d.f.e <= Q(1, 10 ** 12) * max(1, d.f.a * 10 ** 12), dn + ': precision',
                                  'loses %.3g on values around %.6g' % (d.f.e, d.at(a)))
    for typ in ('int', 'varchar', 'char', 'text', 'bigint'):
        kind = 'int' if 'int' in typ else 'str'
        x = Sym('x', kind)
        out = c.run('encode', x, typ)
        rep.check(out and all(strip(v) == x for v, _ in out), 'encode(%s)' % typ,
                  'stores %r for x' % ([v for v, _ in out],), 'encode(%s) is the identity' % typ)
    for typ in ('int', 'varchar', 'char', 'text'):
        for how in ('str', 'int') if typ == 'int' else ('str',):
            y = Sym('y', how)
            out = c.run('decode', y, typ)
            good = {y, Sym('y#', 'int')} if typ == 'int' else {y}
            rep.check(out and all(strip(v) in good for v, _ in out), 'decode(%s)' % typ,
                      'gives %r for y' % ([v for v, _ in out],), 'decode(%s) of %s is the identity' % (typ, how))
    rep.need('encode_pieces', 3)


# ------------------------------------------------------------------------------------------ the algebra of the ciphers
def norm(t, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(t, (T, Tup)):
        return t
    if t in memo:
        return memo[t]
    if isinstance(t, Tup):
        r = Tup([norm(x, memo) for x in t.items])
    else:
        r = rewrite(T(t.op, [norm(a, memo) if isinstance(a, V) else a for a in t.args], t.kind))
    memo[t] = r
    return r


UTF8 = ((), (K('utf8'),), (K('utf-8'),), (K('UTF-8'),), (K('UTF8'),))


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, T) and x.op == 'cat':
            out.extend(x.args)
        elif isinstance(x, K) and x.v in ('', b''):
            continue
        else:
            out.append(x)
    return out


def catn(xs, empty=b''):
    xs = flat(xs)
    if not xs:
        return K(empty)
    out = []
    for x in xs:
        if out and isinstance(x, K) and isinstance(out[-1], K):
            out[-1] = K(out[-1].v + x.v)
        elif out and isinstance(x, T) and isinstance(out[-1], T) and x.op == 'chars' == out[-1].op:
            out[-1] = T('chars', out[-1].args + x.args, 'str')
        elif out and isinstance(x, T) and isinstance(out[-1], T) and x.op == 'utf8' == out[-1].op:
            out[-1] = T('utf8', (catn([out[-1].args[0], x.args[0]], ''),), 'bytes')
        else:
            out.append(x)
    return out[0] if len(out) == 1 else T('cat', out, getattr(xs[0], 'kind', None))


def textual(x):
    return isinstance(x, K) and isinstance(x.v, (str, bytes)) or isinstance(x, (T, Sym)) and (
        x.kind in ('str', 'bytes') or isinstance(x, T) and x.op in ('cat', 'symE', 'symD', 'utf8', 'b64', 'hexs', 'upd', 'fin'))


def mul_of(x, c):
    """x is a run of the byte/character c"""
    return isinstance(x, K) and x.v and set(x.v) == set(c.v) or isinstance(x, T) and x.op == '*' and c in x.args


def call_parts(t):
    name, recv, a, kw, _ = t.args
    return name.v, recv, a.items, {q.items[0].v: q.items[1] for q in kw.items}


def rewrite(t):
    op, args = t.op, t.args
    if op in ('+', 'cat') and (op == 'cat' or any(textual(a) for a in args)):
        parts_ = flat(args)
        out = []
        for x in parts_:
            if isinstance(x, T) and x.op in ('upd', 'fin') and out and isinstance(out[-1], T) and out[-1].op == 'sym*' \
                    and out[-1].args[0] == x.args[0]:
                if x.op == 'upd':
                    out[-1] = T('sym*', (x.args[0], catn([out[-1].args[1], x.args[1]])), 'bytes')
                continue
            if isinstance(x, T) and x.op == 'upd':
                x = T('sym*', x.args, 'bytes')
            out.append(x)
        out = [symmetric(x) for x in out]
        return catn(out, '' if t.kind == 'str' else b'')
    if op == 'upd':
        return t
    if op in ('str', 'int') and len(args) == 1:
        x = args[0]
        if op == 'str':
            if isinstance(x, (T, Sym, K)) and x.kind == 'str' if not isinstance(x, K) else isinstance(x.v, str):
                return x
            return t
        if isinstance(x, T) and x.op in ('str', 'digits'):
            return x.args[0] if not (isinstance(x.args[0], T) and x.args[0].op == 'digits') else x.args[0].args[0]
        if isinstance(x, T) and x.op in ('psum', 'pct', 'padd', 'int', 'pplain'):
            return x
        if isinstance(x, Sym) and x.kind == 'int':
            return x
        return t
    if op == 'bytes' and len(args) == 1 and textual(args[0]):
        return args[0]
    if op == 'attr' and isinstance(args[0], T) and args[0].op == 'pk':
        n = args[0].args[0]
        return {'n': n, 'nsquare': T('nsq', (n,))}.get(args[1].v, t)
    if op == '**' and args[1] == K(2):
        return T('nsq', (args[0],))
    if op == '*' and args[0] == args[1] and isinstance(args[0], T) and args[0].op == '*':
        return T('nsq', (args[0],))
    if op == '%':
        f = factors(args[0], args[1])
        if f is not None and f and isinstance(args[1], T) and args[1].op == 'nsq':
            return T('padd', [args[1], *sorted(f, key=repr)])
        return t
    if op.startswith('bytes.'):
        name, recv, a, kw = op, NONE, args, {}
    elif op == 'call':
        name, recv, a, kw = call_parts(t)
    else:
        return t
    last = name.rpartition('.')[2]
    if last == 'encode' and recv != NONE and tuple(a) in UTF8 and not kw:
        if isinstance(recv, K):
            return K(recv.v.encode())
        if isinstance(recv, T) and recv.op == 'b64s':
            return T('b64', recv.args, 'bytes')
        if isinstance(recv, T) and recv.op == 'cat':
            return catn([rewrite(T('call', (K('encode'), x, Tup(), Tup(), NONE))) for x in recv.args])
        if isinstance(recv, T) and recv.op == '*' and any(isinstance(x, K) and isinstance(x.v, str) for x in recv.args):
            return T('*', [K(x.v.encode()) if isinstance(x, K) and isinstance(x.v, str) else x for x in recv.args])
        return T('utf8', (recv,), 'bytes')
    if last == 'decode' and recv != NONE and tuple(a) in UTF8 + ((K('ascii'),),) and not kw:
        return undo_utf8(recv) or t
    if last == 'b64encode' and len(a) == 1:
        return T('b64', (a[0],), 'bytes')
    if last == 'b64decode' and len(a) == 1:
        if isinstance(a[0], T) and a[0].op in ('b64', 'b64s'):
            return a[0].args[0]
    if last == 'hex' and recv != NONE and not a:
        return T('hexs', (recv,), 'str')
    if last in ('hexlify', 'b2a_hex'):
        return T('hexb', (a[0],), 'bytes')
    if last in ('fromhex', 'unhexlify', 'a2b_hex') and a and isinstance(a[-1], T):
        x = a[-1]
        if x.op in ('hexs', 'hexb'):
            return x.args[0]
        if x.op == 'hdigest':
            return T('digest', x.args, 'bytes')
    if name.startswith('hashlib.') and recv == NONE:
        arg = a[1:] if last == 'new' else a
        if len(arg) == 1:
            return T('hash', (K(last if last != 'new' else a[0].v), arg[0]))
    if last in ('digest', 'hexdigest') and isinstance(recv, T) and recv.op == 'hash':
        return T('digest' if last == 'digest' else 'hdigest', recv.args, 'bytes' if last == 'digest' else 'str')
    if name.endswith('ciphers.Cipher'):
        alg = a[0] if a else kw.get('algorithm')
        mode = a[1] if len(a) > 1 else kw.get('mode')
        return T('aes', (alg, mode))
    if last in ('encryptor', 'decryptor') and isinstance(recv, T) and recv.op == 'aes':
        return T('run', (K(last[:3]),) + recv.args)
    if last == 'update' and isinstance(recv, T) and recv.op == 'run' and len(a) == 1:
        return T('upd', (recv, a[0]), 'bytes')
    if last == 'finalize' and isinstance(recv, T) and recv.op == 'run':
        return T('fin', (recv,), 'bytes')
    if last == 'rstrip' and recv != NONE and len(a) == 1 and a[0] in (K('\0'), K(b'\0')):
        return unpad0(recv)
    if last in ('encodebytes', 'decodebytes'):
        return t
    return t


def symmetric(x):
    """sym*(run, data) -> symE/symD, cancelling an encryption under the same algorithm, key and mode"""
    if not (isinstance(x, T) and x.op in ('sym*', 'upd')):
        return x
    run, data = x.args
    key = Tup(run.args[1:])
    if run.args[0] == K('enc'):
        return T('symE', (key, data), 'bytes')
    if isinstance(data, T) and data.op == 'symE' and data.args[0] == key:
        return data.args[1]
    return T('symD', (key, data), 'bytes')


def undo_utf8(x):
    x = symmetric(x)
    if isinstance(x, K) and isinstance(x.v, bytes):
        return K(x.v.decode('utf8', 'replace'))
    if isinstance(x, T):
        if x.op == 'utf8':
            return x.args[0]
        if x.op == 'b64':
            return T('b64s', x.args, 'str')
        if x.op == 'hexb':
            return T('hexs', x.args, 'str')
        if x.op == 'cat':
            ps = [undo_utf8(q) for q in x.args]
            return None if None in ps else catn(ps, '')
        if x.op == '*' and any(isinstance(q, K) and isinstance(q.v, bytes) for q in x.args):
            return T('*', [K(q.v.decode('latin1')) if isinstance(q, K) and isinstance(q.v, bytes) else q for q in x.args])
    return None


def unpad0(x):
    x = symmetric(x)
    c = K('\0'), K(b'\0')
    if isinstance(x, T) and x.op == 'cat' and any(mul_of(x.args[-1], k) for k in c if type_ok(x.args[-1], k)):
        return catn(x.args[:-1])
    return x


def type_ok(x, k):
    return not isinstance(x, K) or type(x.v) is type(k.v)


def factors(t, mod):
    """multiplicative factors of t modulo mod, None if t is no product"""
    if isinstance(t, K):
        return [] if t.v == 1 else None
    if isinstance(t, T):
        if t.op == '*':
            a, b = factors(t.args[0], mod), factors(t.args[1], mod)
            return None if a is None or b is None else a + b
        if t.op == '%' and t.args[1] == mod:
            return factors(t.args[0], mod)
        if t.op == 'padd' and t.args[0] == mod:
            return list(t.args[1:])
        if t.op == 'pct':
            return [t]
    return None


def paillier(t):
    """second pass: decryptions of Paillier terms"""
    if isinstance(t, Tup):
        return Tup([paillier(x) for x in t.items])
    if not isinstance(t, T):
        return t
    t = rewrite(T(t.op, [paillier(a) if isinstance(a, V) else a for a in t.args], t.kind))
    if t.op == 'call':
        name, recv, a, kw = call_parts(t)
        last = name.rpartition('.')[2]
        if last == 'PaillierPublicKey' and len(a) == 1:
            return T('pk', (a[0],))
        if last == 'PaillierPrivateKey':
            ks = list(a) + [kw[k] for k in ('p', 'q') if k in kw]
            return T('sk', ks)
        if last == 'encrypt' and isinstance(recv, T) and recv.op == 'pk' and a:
            r = [v for k, v in kw.items() if k == 'r_value' and v != NONE] + list(a[2:])
            if not r:
                return T('penc', (recv, a[0]))
        if last == 'ciphertext' and isinstance(recv, T) and recv.op == 'penc':
            return T('pct', recv.args + ((a[0] if a else kw.get('be_secure', TRUE)),))
        if last == 'EncryptedNumber' and len(a) == 2:
            return T('pnum', a)
        if last == 'decrypt' and isinstance(recv, T) and recv.op == 'sk' and len(a) == 1 and isinstance(a[0], T) \
                and a[0].op == 'pnum' and len(recv.args) == 3:
            pk, c = a[0].args
            spk, p, q = recv.args
            if spk == pk and pk.op == 'pk' and pk.args[0] in (T('*', (p, q)), T('*', (q, p))):
                if isinstance(c, T) and c.op == 'pct' and c.args[0] == pk:
                    return T('pplain', (c.args[1],))
                if isinstance(c, T) and c.op == 'padd' and c.args[0] == T('nsq', pk.args) and \
                        all(isinstance(x, T) and x.op == 'pct' and x.args[0] == pk for x in c.args[1:]):
                    return T('psum', [x.args[1] for x in c.args[1:]])
    return t


def reduced(t):
    t = symmetric(norm(t))
    for _ in range(3):
        n = symmetric(norm(paillier(t)))
        if n == t:
            break
        t = n
    return t


class Ciphers:
    def __init__(self, p, intrinsics=None):
        i = {'.set_key': self.set_key, '.crypt_ecb': self.ecb, '.crypt_cbc': self.ecb}
        i.update(intrinsics or {})
        self.I = Interp(p, opaque=EXT_OPAQUE, intrinsics=i)
        starts = [s for _, s in self.I.import_module(CRYPTO_MOD, State())]
        if not starts:
            raise AnalysisError('no start-up path of ' + CRYPTO_MOD)
        self.st = starts[0]

    def set_key(self, I, args, kw, st, node, fr):
        mode = args[2] if len(args) > 2 else kw.get('mode')
        st.tags[('sm4', args[0])] = (args[1], mode)
        return [(NONE, st)]

    def ecb(self, I, args, kw, st, node, fr):
        k = st.tags.get(('sm4', args[0]))
        if k is None:
            return [(I.exc('TypeError', 'SM4 used without a key', node), st)]
        key, mode = k
        if isinstance(mode, K):
            enc = mode.v == 0
        elif isinstance(mode, Ext):
            enc = mode.name.endswith('SM4_ENCRYPT')
        else:
            return [(T('sm4?', (key, mode, args[1]), 'bytes'), st)]
        x = norm(args[1])
        alg = Tup([K('sm4'), K(str(node.func.attr if hasattr(node.func, 'attr') else 'ecb')), norm(key),
                   *[norm(z) for z in args[2:]]])
        if enc:
            return [(T('symE', (alg, x), 'bytes'), st)]
        if isinstance(x, T) and x.op == 'symE' and x.args[0] == alg:
            return [(x.args[1], st)]
        return [(T('symD', (alg, x), 'bytes'), st)]

    def make(self, cls, key, st=None):
        st = (st or self.st).copy()
        c = self.I.mod_get(CRYPTO_MOD, cls, st)
        return self.I.call(c, [lift(key, st)], {}, st, None, None)

    def call(self, obj, meth, args, st):
        out = []
        for f, s in self.I.getattr(obj, meth, st, None, None):
            if isinstance(f, Exc):
                out.append((f, s))
            else:
                out += self.I.call(f, args, {}, s, None, None)
        return out


TEXT = ('AESCipher', 'SM4CipherBytes')


def key_of(cls):
    return [Sym('p', 'int'), Sym('q', 'int')] if cls == 'HomomorphicCipher' else Sym('key', 'str')


def pct_digits(pk, name):
    return T('digits', (T('pct', (pk, Sym(name, 'int'), FALSE)),), 'str')


def check_C11(p, rep):
    C = Ciphers(p)
    for cls in TEXT:
        for kind in ('str', 'int') if cls != 'AESCipher' else ('str',):
            x = Sym('x', kind)
            for o, s in C.make(cls, key_of(cls)):
                if not rep.check(not isinstance(o, Exc), cls + ': constructor', 'raises %r' % (o,)):
                    continue
                normal = 0
                for e, s1 in C.call(o, 'encrypt', [x], s):
                    rep.count('encrypt_paths')
                    if not rep.check(not isinstance(e, Exc), cls + '.encrypt: raises', 'raises %r for a %s value' % (e, kind)):
                        continue
                    # decryption runs on the ciphertext as the backend returns it: a fresh object of the same key
                    for o2, s2 in C.make(cls, key_of(cls), s1):
                        if isinstance(o2, Exc):
                            continue
                        for d, s3 in C.call(o2, 'decrypt', [reduced(e) if not isinstance(e, K) else e], s2):
                            rep.count('decrypt_paths')
                            if isinstance(d, Exc):
                                rep.bad(cls + '.decrypt: raises', 'raises %r on a ciphertext of its own' % (d,))
                                continue
                            normal += 1
                            got = reduced(d)
                            want = {x} if kind == 'str' else {x, T('str', (x,), 'str')}
                            rep.check(got in want, cls + ': round trip', 'decrypting the encryption of x gives %s' %
                                      repr(got)[:300], '%s.decrypt(encrypt(x)) = %r' % (cls, got))
                rep.check(normal, cls + ': no round trip', 'no path encrypts and decrypts')
    cls = 'HomomorphicCipher'
    x = Sym('x', 'int')
    for o, s in C.make(cls, key_of(cls)):
        for e, s1 in C.call(o, 'encrypt', [x], s):
            rep.count('encrypt_paths')
            e2 = reduced(e) if not isinstance(e, Exc) else e
            ok = rep.check(isinstance(e2, T) and e2.op == 'str' and isinstance(e2.args[0], T) and e2.args[0].op == 'pct',
                           cls + '.encrypt', 'is not a Paillier ciphertext of the value in decimal: %s' % repr(e2)[:300],
                           cls + '.encrypt is the decimal Paillier ciphertext')
            if not ok:
                continue
            pk = e2.args[0].args[0]
            rep.check(e2.args[0].args[1] == x, cls + '.encrypt: value', 'encrypts %r' % (e2.args[0].args[1],))
            for d, s2 in C.call(o, 'decrypt', [pct_digits(pk, 'x')], s1):
                rep.count('decrypt_paths')
                got = d if isinstance(d, Exc) else reduced(d)
                while isinstance(got, T) and got.op == 'int':
                    got = got.args[0]
                rep.check(got == T('pplain', (x,)), cls + ': round trip', 'gives %s' % repr(got)[:300],
                          cls + '.decrypt(encrypt(x)) = x')
    rep.need('encrypt_paths', 4)
    rep.need('decrypt_paths', 4)


def check_C17(p, rep):
    C = Ciphers(p)
    cls = 'HomomorphicCipher'
    P_, Q_ = Sym('p', 'int'), Sym('q', 'int')
    for o, s in C.make(cls, [P_, Q_]):
        for e, s1 in C.call(o, 'encrypt', [Sym('x', 'int')], s):
            e2 = e if isinstance(e, Exc) else reduced(e)
            if not rep.check(isinstance(e2, T) and e2.op == 'str' and isinstance(e2.args[0], T) and e2.args[0].op == 'pct',
                             cls + '.encrypt', 'is not a randomised Paillier ciphertext: %s' % repr(e2)[:300],
                             'ciphertexts are randomised (no r_value is passed)'):
                continue
            pk = e2.args[0].args[0]
            for n in (1, 2, 3, 4):
                vals = [Sym('x%d' % i, 'int') for i in range(n)]
                for tag in ('SUM', 'AVG'):
                    parts_ = []
                    for v in vals:
                        parts_ += [pct_digits(pk, v.name), K(',')]
                    cell = T('cat', parts_[:-1] + [K(',' + tag)], 'str')
                    outs = C.call(o, 'decrypt', [cell], s1.copy())
                    rep.count('aggregates')
                    for d, s2 in outs:
                        got = d if isinstance(d, Exc) else reduced(d)
                        want = T('psum', sorted(vals, key=repr))
                        if tag == 'AVG':
                            if isinstance(got, T) and got.op == '/' and got.args[1] == K(n):
                                got = got.args[0]
                            elif n > 1:
                                got = T('not divided by %d' % n, (got,)) if isinstance(got, V) else got
                        if isinstance(got, T) and got.op == 'psum':
                            got = T('psum', sorted(got.args, key=repr))
                        rep.check(got in (want, T('pplain', vals) if n == 1 else want), '%s of %d ciphertexts' % (tag, n),
                                  'decrypts to %s' % repr(got)[:300], '%s of %d = %r' % (tag, n, got))
    rep.need('aggregates', 8)


# ------------------------------------------------------------------------------------------ C12: deterministic, keyed
def key_leaks(key_term, sym):
    """None if the term depends on the whole of `sym` through hashing/encoding only, else what is wrong"""
    ok_ops = {'utf8', 'hash', 'digest', 'hdigest', 'cat', 'str', 'hexs', 'hexb', 'b64', 'b64s', 'call'}
    found = []

    def go(t, hashed):
        if t == sym:
            found.append(True)
            return None
        if isinstance(t, T):
            if t.op in ('item', 'slice') and not hashed and sym in set(parts_of(t)):
                return 'only a part of the key is used (%s)' % repr(t)[:120]
            if t.op == '%' or t.op == 'len':
                return 'only a residue of the key is used (%s)' % repr(t)[:120] if sym in set(parts_of(t)) else None
            for a in t.args:
                if isinstance(a, V):
                    r = go(a, hashed)
                    if r:
                        return r
        if isinstance(t, Tup):
            for a in t.items:
                r = go(a, hashed)
                if r:
                    return r
        return None
    r = go(key_term, False)
    if r:
        return r
    return None if found else 'the key is not used (%s)' % repr(key_term)[:120]


def parts_of(t):
    stack = [t]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, T):
            stack.extend(a for a in x.args if isinstance(a, V))
        elif isinstance(x, Tup):
            stack.extend(x.items)


def impure(t):
    """names of unpredictable calls inside a term"""
    return sorted({x.args[0].v for x in parts_of(t) if isinstance(x, T) and x.op == 'call' and
                   (x.args[0].v + '.').startswith(RANDOM)})


def check_C12(p, rep):
    C = Ciphers(p)
    key = Sym('key', 'str')
    longest = max([18] + [c + 3 for c in thresholds(Ciphers(p), key) if c <= 300])
    G = Ciphers(p, {ENC + 'AESCipher.encrypt': aes_gram})
    for o, s in G.make('FuzzyCipher', key):
        for e, _ in [] if isinstance(o, Exc) else G.call(o, 'encrypt', [T('chars', [Sym('c%d' % i, 'str') for i in range(longest)], 'str')], s):
            algs = {z.args[0] for z in parts_of(reduced(e)) if isinstance(z, T) and z.op == 'symE'} if not isinstance(e, Exc) else set()
            rep.count('long_fuzzy_paths')
            for a in algs:
                r = key_leaks(a, key)
                rep.check(r is None and len(algs) == 1, 'FuzzyCipher: key', r or 'parts of one value are encrypted under different '
                          'keys: %s' % repr(sorted(map(repr, algs)))[:300], 'every part of a long value is under the column key')
    for cls in ('AESCipher', 'SM4CipherBytes', 'FuzzyCipher'):
        x = T('chars', [Sym('c%d' % i, 'str') for i in range(3)], 'str') if cls == 'FuzzyCipher' else Sym('x', 'str')
        for o, s in C.make(cls, key):
            n0 = len(s.trace)
            for e, s1 in C.call(o, 'encrypt', [x], s):
                if isinstance(e, Exc):
                    continue
                rep.count('encrypt_paths')
                e1 = reduced(e)
                bad = impure(e1) or sorted({ev.name for ev in s1.trace if ev.kind == 'call' and
                                            (ev.name + '.').startswith(RANDOM)})
                rep.check(not bad, cls + ': unpredictable', 'encrypt uses %s' % bad, cls + '.encrypt uses no unpredictable call')
                first = [z for z in parts_of(e1) if isinstance(z, T) and z.op == 'symE']
                rep.check(first or isinstance(e1, K), cls + ': no cipher', 'the result is %s' % repr(e1)[:200])
                for z in first:
                    alg = z.args[0]
                    r = key_leaks(alg, key)
                    rep.check(r is None, cls + ': key', str(r), cls + ' is keyed by ' + repr(alg)[:120])
                    if cls != 'SM4CipherBytes':
                        mode = alg.items[1] if len(alg.items) > 1 else NONE
                        rep.check(not [q for q in parts_of(mode) if isinstance(q, Sym) and q != key], cls + ': mode',
                                  'mode %r' % (mode,))
                # again: the same object, then a new one, on the same path conditions
                again = [v for v, s2 in C.call(o, 'encrypt', [x], s1.copy()) if not isinstance(v, Exc)]
                rep.check(any(reduced(v) == e1 for v in again), cls + ': second encryption differs',
                          'the same object encrypts the same value differently the second time')
                fresh = [v for o2, s2 in C.make(cls, key, s1) if not isinstance(o2, Exc)
                         for v, _ in C.call(o2, 'encrypt', [x], s2) if not isinstance(v, Exc)]
                rep.check(any(reduced(v) == e1 for v in fresh), cls + ': another object differs',
                          'another object of the same key encrypts the same value differently')
    # the order-preserving cipher: tape of bits per (key, number)
    I = Interp(p, opaque=EXT_OPAQUE, intrinsics={
        'scheduler.crypto.ope.util.str_to_bitstring':
            lambda I, a, k, st, n, fr: [(st.list([Sym('bit', 'int')]), st)]})
    for o, s in I_make(I, 'OPECipher', key):
        if isinstance(o, Exc):
            continue
        inner = [s.heap[o.oid].attrs.get('cipher')]
        ope = next((x for x in inner if isinstance(x, Ref)), None)
        if ope is None:
            raise AnalysisError('OPECipher holds no cipher object')
        n = Sym('n', 'int')
        for f, s1 in I.getattr(ope, 'tape_gen', s, None, None):
            for g, s2 in [(f, s1)] if isinstance(f, Exc) else I.call(f, [n], {}, s1, None, None):
                if isinstance(g, Exc):
                    continue
                rep.count('tape_paths')
                evs = s2.trace
                bad = sorted({ev.name for ev in evs if ev.kind == 'call' and (ev.name + '.').startswith(RANDOM)})
                rep.check(not bad, 'OPECipher: unpredictable', 'the bit tape uses %s' % bad, 'the bit tape uses no unpredictable call')
                ciphers = [ev for ev in evs if ev.kind == 'call' and ev.name.endswith('ciphers.Cipher')]
                dep = [ev for ev in ciphers if key in set(parts_of(Tup([*ev.args, *ev.kw.values()])))]
                hm = [ev for ev in evs if ev.kind == 'call' and ev.name in ('update', 'hmac.HMAC', 'hmac.new', 'hmac.digest',
                                                                           'hashlib.sha256') and
                      n in set(parts_of(Tup([*ev.args, *ev.kw.values()])))]
                rep.check(dep and hm, 'OPECipher: key', 'the bit tape depends on %s' % (
                    'the key only' if dep else 'neither key nor value'), 'the bit tape is keyed by HMAC(key, number)')
        sizes = []
        for nm in ('in_range', 'out_range'):
            r = s.heap[ope.oid].attrs.get(nm)
            vals = [x.v for x in s.heap[r.oid].attrs.values() if isinstance(x, K)] if isinstance(r, Ref) else []
            if len(vals) != 2:
                raise AnalysisError('range %s of the order-preserving cipher not readable' % nm)
            sizes.append(max(vals) - min(vals) + 1)
        rep.check(sizes[1] > sizes[0], 'OPECipher: default ranges', 'the output range (%d values) is not larger than the '
                  'input range (%d): the only order-preserving map is the identity, so the ciphertext is the plaintext '
                  'for every key' % (sizes[1], sizes[0]), 'the output range is larger than the input range')
    rep.need('encrypt_paths', 4)
    rep.need('tape_paths', 1)


def I_make(I, cls, key):
    out = []
    for _, st in I.import_module(CRYPTO_MOD, State()):
        c = I.mod_get(CRYPTO_MOD, cls, st)
        out += I.call(c, [key], {}, st, None, None)
    return out


# ------------------------------------------------------------------------------------------ C13: order preservation
class OpeModel:
    """the recursion of the order-preserving cipher with the hypergeometric sampler replaced by every outcome its
    distribution allows and the coin tape by unknown bits, one tape per number"""

    def __init__(self, p):
        self.I = Interp(p, opaque=EXT_OPAQUE, intrinsics={
            'scheduler.crypto.ope.hgd.HGD.rhyper': self.rhyper, OPEMOD + '.OPE.tape_gen': self.tape})
        starts = [s for _, s in self.I.import_module(OPEMOD, State())]
        if not starts:
            raise AnalysisError('no start-up path of ' + OPEMOD)
        self.st = starts[0]
        self.samples = 0

    def tape(self, I, args, kw, st, node, fr):
        data = args[1] if len(args) > 1 else kw.get('data', NONE)
        bits = [Sym('bit:%r:%d' % (data, i), 'int') for i in range(6)]
        return [(st.list(bits), st)]

    def rhyper(self, I, args, kw, st, node, fr):
        a = list(args) + [kw[k] for k in ('kk', 'nn1', 'nn2', 'coins') if k in kw]
        if len(a) != 4 or not all(isinstance(x, K) for x in a[:3]):
            raise AnalysisError('sampler called with unknown sizes %r' % (a[:3],))
        kk, good, bad = [x.v for x in a[:3]]
        coins = st.heap[a[3].oid].items[0].name if isinstance(a[3], Ref) and st.heap[a[3].oid].items else repr(a[3])
        memo = ('hgd', kk, good, bad, coins)
        self.samples += 1
        if kk < 0 or good < 0 or bad < 0 or kk > good + bad:
            return [(I.exc('SamplerDomain', 'rhyper(%d, %d, %d)' % (kk, good, bad), node), st)]
        if memo in st.tags:
            return [(K(st.tags[memo]), st)]
        out = []
        for v in range(max(0, kk - bad), min(kk, good) + 1):
            s = st.copy()
            s.tags[memo] = v
            out.append((K(v), s))
        return out

    def build(self, a, b, c, d):
        st = self.st.copy()
        vr = self.I.mod_get(OPEMOD, 'ValueRange', st)
        out = []
        for r1, s1 in self.I.call(vr, [K(a), K(b)], {}, st, None, None):
            for r2, s2 in self.I.call(vr, [K(c), K(d)], {}, s1, None, None):
                ope = self.I.mod_get(OPEMOD, 'OPE', s2)
                out += self.I.call(ope, [K(b'k' * 32), r1, r2], {}, s2, None, None)
        return out

    def call(self, o, meth, x, st):
        out = []
        for f, s in self.I.getattr(o, meth, st, None, None):
            out += self.I.call(f, [K(x)], {}, s, None, None)
        return out


def bit_consistent(s):
    """coin comparisons made on this path: a bit is 0 or 1"""
    vals = {}
    for k, t in s.facts.items():
        if k[0] == 'eq':
            xs = list(k[1])
            b = [x for x in xs if isinstance(x, Sym) and x.name.startswith('bit:')]
            c = [x for x in xs if isinstance(x, K)]
            if b and c:
                ok = vals.setdefault(b[0].name, {0, 1})
                if t:
                    ok &= {c[0].v}
                else:
                    ok -= {c[0].v}
        elif k[0] == 'truth' and isinstance(k[1], Sym) and k[1].name.startswith('bit:'):
            vals.setdefault(k[1].name, {0, 1}).intersection_update({1} if t else {0})
    return all(vals.values())


def check_C13(p, rep):
    m = OpeModel(p)
    boxes = [(0, 0, 0, 0), (0, 0, 0, 2), (0, 1, 0, 2), (-1, 1, -3, 1), (0, 2, 0, 3), (5, 6, -2, 2), (-2, 0, 10, 14),
             (0, 3, 0, 3), (0, 1, 0, 5)]
    if rep.tier == 'thorough':
        boxes += [(0, 3, 0, 5), (-3, 0, -4, 2), (1, 2, 1, 8), (0, 2, 0, 6)]
    for box in boxes:
        a, b, c, d = box
        name = 'in [%d, %d], out [%d, %d]' % box
        outs = m.build(*box)
        if not rep.check(any(not isinstance(o, Exc) for o, _ in outs), 'OPE: constructor', 'refuses %s' % name):
            continue
        for o, s in outs:
            if isinstance(o, Exc):
                continue
            cur = [({}, s)]
            for x in range(a, b + 1):
                nxt = []
                for img, st in cur:
                    for v, s1 in m.call(o, 'encrypt', x, st):
                        if not bit_consistent(s1):
                            continue
                        rep.count('encryptions')
                        if isinstance(v, Exc):
                            rep.bad('OPE.encrypt: raises', '%s: %d raises %s' % (name, x, exc_name(v, s1)))
                            continue
                        if not rep.check(isinstance(v, K) and isinstance(v.v, int) and c <= v.v <= d, 'OPE.encrypt: range',
                                         '%s: %d becomes %r' % (name, x, v)):
                            continue
                        prev = img.get(x - 1)
                        rep.check(prev is None or prev < v.v, 'OPE.encrypt: order', '%s: %d and %d become %s and %s' % (
                            name, x - 1, x, prev, v.v), '%s: order kept' % name)
                        nxt.append((dict(img, **{'%d' % x: v.v}) if False else {**img, x: v.v}, s1))
                cur = nxt
            rep.check(cur, 'OPE.encrypt: no outcome', name)
            for img, st in cur:
                for x, y in img.items():
                    outs2 = [(v, s2) for v, s2 in m.call(o, 'decrypt', y, st.copy()) if bit_consistent(s2)]
                    rep.count('decryptions')
                    for v, s2 in outs2:
                        rep.check(v == K(x), 'OPE.decrypt: inverse', '%s: the ciphertext %d of %d decrypts to %s' % (
                            name, y, x, exc_name(v, s2) if isinstance(v, Exc) else repr(v)), '%s: decrypt inverts' % name)
                    rep.check(outs2, 'OPE.decrypt: no outcome', name)
                for y in set(range(c, d + 1)) - set(img.values()):
                    for v, s2 in m.call(o, 'decrypt', y, st.copy()):
                        if bit_consistent(s2):
                            rep.count('foreign_ciphertexts')
                            rep.check(isinstance(v, Exc), 'OPE.decrypt: accepts a foreign ciphertext',
                                      '%s: %d, which encrypts nothing, decrypts to %r' % (name, y, v))
            for meth, bad in (('encrypt', (a - 1, b + 1)), ('decrypt', (c - 1, d + 1))):
                for x in bad:
                    for v, _ in m.call(o, meth, x, s.copy()):
                        rep.check(isinstance(v, Exc), 'OPE.%s: outside the range' % meth, '%s: %d is accepted' % (name, x))
    rep.count('sampler_calls', m.samples)
    rep.need('encryptions', 20)
    rep.need('decryptions', 20)


def exc_name(e, st):
    v = e.val
    if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), HInst):
        c = st.heap[v.oid].cls
        return st.heap[c.oid].name if isinstance(c, Ref) else repr(c)
    return repr(v)


# ------------------------------------------------------------------------------------------ C14: fuzzy search
def grams(e):
    """normal form of a fuzzy ciphertext -> list of (algorithm, character tuple) or None"""
    e = reduced(e)
    if isinstance(e, K) and e.v in ('', b''):
        return []
    ps = e.args if isinstance(e, T) and e.op == 'cat' else (e,)
    out = []
    for x in ps:
        if not (isinstance(x, T) and x.op in ('b64s', 'hexs') and isinstance(x.args[0], T) and x.args[0].op == 'symE'):
            return None
        alg, data = x.args[0].args
        data = unpad0(data) if isinstance(data, T) else data
        if isinstance(data, T) and data.op == 'cat' and mul_of(data.args[-1], K(b'\0')):
            data = catn(data.args[:-1])
        if not (isinstance(data, T) and data.op == 'utf8' and isinstance(data.args[0], T) and data.args[0].op == 'chars'):
            return None
        out.append((alg, data.args[0].args))
    return out


def classes(facts, x):
    """what the path assumed about the string as a whole: {predicate: bool}"""
    res = {}
    for k, t in facts.items():
        if k[0] == 'truth' and isinstance(k[1], T) and k[1].op == 'call' and k[1].args[1] == x:
            res[k[1].args[0].v] = t
    return res


def compatible(vc, pc):
    """can a nonempty substring be in class pc when the whole is in class vc?"""
    for k, t in pc.items():
        if k in ('isalpha', 'isalnum', 'isdigit', 'isascii', 'isnumeric', 'isdecimal') and not t and vc.get(k):
            return False
    if vc.get('isalpha') and (pc.get('isalpha') is False or pc.get('isalnum') is False):
        return False
    if (vc.get('isalpha') or vc.get('isdigit')) and pc.get('isalnum') is False:
        return False
    alnum = any(vc.get(k) for k in ('isalpha', 'isalnum', 'isdigit'))
    if alnum and pc and not any(pc.values()):
        return False
    return True


def aes_gram(I, args, kw, st, node, fr):
    """AESCipher.encrypt of a known text (its own obligations are C11 and C12)"""
    key = st.heap[args[0].oid].attrs if isinstance(args[0], Ref) else {}
    x = args[1] if len(args) > 1 else NONE
    if not (isinstance(x, T) and x.op == 'chars'):
        return None
    keys = Tup([norm(v) for v in key.values() if isinstance(v, (T, Sym))])
    return [(T('b64s', (T('symE', (keys, T('utf8', (x,), 'bytes')), 'bytes'),), 'str'), st)]


def thresholds(C, key):
    """integer constants a string's length is related to in the fuzzy cipher"""
    res = set()
    x = Sym('x', 'str')
    for o, s in C.make('FuzzyCipher', key):
        if isinstance(o, Exc):
            continue
        for e, s1 in C.call(o, 'encrypt', [x], s):
            ts = [q for k in s1.facts for q in k if isinstance(q, V)] + [e]
            for k in s1.facts:
                if k[0] == 'num':
                    res.add(abs(int(k[3])))
            for t in ts:
                for q in parts_of(t):
                    if isinstance(q, T) and q.op not in ('symE', 'aes') and T('len', (x,)) in \
                            {z for z in parts_of(q)} and q.op != 'call':
                        res.update(abs(a.v) for a in q.args if isinstance(a, K) and type(a.v) is int)
                    elif isinstance(q, T) and q.op == 'call' and q.args[0].v.rpartition('.')[2] in ('min', 'max', 'range'):
                        res.update(abs(a.v) for a in q.args[2].items if isinstance(a, K) and type(a.v) is int)
                    elif isinstance(q, T) and q.op == 'slice':
                        res.update(abs(a.v) for a in q.args if isinstance(a, K) and type(a.v) is int)
    return res


def check_C14(p, rep):
    key = Sym('key', 'str')
    C = Ciphers(p, {ENC + 'AESCipher.encrypt': aes_gram})
    lengths = set(range(1, 8 if rep.tier != 'thorough' else 13))
    for c in thresholds(Ciphers(p), key):
        if c <= 600:
            lengths.update(n for n in (c - 1, c, c + 1, c + 3, c + 5) if n > 0)
        rep.count('length_thresholds')
    lengths = sorted(lengths)
    table = {}
    for n in lengths:
        chars = [Sym('c%d' % i, 'str') for i in range(n)]
        x = T('chars', chars, 'str')
        for o, s in C.make('FuzzyCipher', key):
            if not rep.check(not isinstance(o, Exc), 'FuzzyCipher: constructor', 'raises %r' % (o,)):
                continue
            for e, s1 in C.call(o, 'encrypt', [x], s):
                rep.count('paths')
                if not rep.check(not isinstance(e, Exc), 'FuzzyCipher.encrypt: raises', '%r for %d characters' % (e, n)):
                    continue
                g = grams(e)
                if not rep.check(g is not None, 'FuzzyCipher.encrypt: form', 'a string of %d characters becomes %s' % (
                        n, repr(reduced(e))[:300])):
                    continue
                cl = tuple(sorted(classes(s1.facts, x).items()))
                table.setdefault((n, cl), set()).add(tuple(tuple(chars.index(c) for c in q) for _, q in g))
                rep.check(len({a for a, _ in g}) <= 1, 'FuzzyCipher.encrypt: algorithms', 'grams under different keys')
    for (n, cl), forms in sorted(table.items(), key=repr):
        if not rep.check(len(forms) == 1, 'FuzzyCipher.encrypt: varying', 'length %d: %s' % (n, sorted(forms)[:2])):
            continue
        g = list(next(iter(forms)))
        w = len(g[0]) if g else 0
        want = [tuple(range(i, i + w)) for i in range(n - w + 1)]
        rep.check(g == want, 'FuzzyCipher.encrypt: grams', 'a string of %d characters (%s) is cut into %s, not into all '
                  'its runs of %d characters in order' % (n, dict(cl), g, w),
                  'length %d %s: every run of %d' % (n, dict(cl), w))
        rep.count('decompositions')
    single = {k: next(iter(v)) for k, v in table.items() if len(v) == 1}
    for (n, vc), gv in single.items():
        for (m, pc), gp in single.items():
            if m > n or m < 3 or n > 20 and m not in (3, 4, n) or not compatible(dict(vc), dict(pc)):
                continue
            for off in range(n - m + 1):
                need = [tuple(off + i for i in q) for q in gp]
                have = list(gv)
                ok = any(have[i:i + len(need)] == need for i in range(len(have) - len(need) + 1))
                rep.count('pattern_positions')
                vt = 'letters and digits' if any(dict(vc).values()) else 'mixed text'
                pt = 'letters and digits' if any(dict(pc).values()) else 'mixed text'
                rep.check(ok, 'FuzzyCipher: %s pattern in %s value (runs of %d in runs of %d)' % (
                    pt, vt, len(gp[0]), len(gv[0])),
                          'a pattern of %d characters at offset %d of a value of %d is cut into grams of %d while the value '
                          'is cut into grams of %d: the ciphertext of the value does not contain that of the pattern' % (
                              m, off, n, len(gp[0]), len(gv[0])),
                          'a %s pattern is found in a %s value' % (pt, vt))
    gw = Gateway(p)
    for pattern in ('%ab_d%', 'abc_', '_bcd', '%abc%d_f%'):
        n = len(gw.captured)
        gw.rewrite({'select': {'value': 'pv'}, 'from': 't', 'where': {'like': ['v', {'literal': pattern}]}})
        rep.count('wildcard_patterns')
        rep.check(len(gw.captured) == n, 'LIKE with the one-character wildcard _', 'is accepted and _ is encrypted as a '
                  'literal character, so the rows it stands for are not found', 'LIKE %s is refused' % pattern)
    for m in (1, 2):
        n = len(gw.captured)
        gw.rewrite({'select': {'value': 'pv'}, 'from': 't', 'where': {'like': ['v', {'literal': '%' + 'ab'[:m] + '%'}]}})
        rep.count('short_patterns')
        rep.check(len(gw.captured) == n, 'LIKE with a run shorter than a gram', 'a run of %d characters is encrypted as a '
                  'gram of its own, which no stored value contains' % m, 'LIKE with a run of %d characters is refused' % m)
    rep.need('decompositions', 8)
    rep.need('pattern_positions', 8)
