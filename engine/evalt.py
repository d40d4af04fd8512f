"""Meaning of closed-form terms under a valuation of their free symbols. Used only to confirm that
two different normal forms really denote different functions (the valuation is the witness that is
reported); a difference that cannot be confirmed is left undecided."""
import cmath
import math
import struct
import zlib
from fractions import Fraction
from terms import *
import terms as TM

class Skip(Exception):
    """the valuation says nothing (division by zero, undecidable comparison, too large)"""

class Undefined(Exception):
    """an uninitialised value is used"""

EPS = 1e-9
LIMIT = 4000

def _f(x):
    return float(x)

class AV:
    """array value: overlay on a base"""
    __slots__ = ('base', 'over')
    def __init__(self, base, over=None):
        self.base, self.over = base, over or {}

FV = {}

class Val:
    """a valuation. sizes: dict name->int; data(name, kind, i)->value"""
    def __init__(self, syms, data):
        self.syms = syms
        self.data = data
        self.env = {}
        self.steps = 0
        self.entries = None
        self.runs = {}
        self.keep = {}

    # ------------------------------------------------------------ scalars
    def P(self, p):
        tot = 0
        for m, c in p.t.items():
            v = c
            for a, e in m:
                x = self.A(a)
                if e == 1:
                    v = v * x
                elif e > 0:
                    v = v * x ** e
                else:
                    if x == 0 or (isinstance(x, float) and abs(x) < EPS):
                        raise Skip()
                    if isinstance(x, int):
                        x = Fraction(x)
                    v = v / x ** (-e)
                if v == 0 and not isinstance(v, float):
                    # remaining factors still have to be meaningful, but cannot change the value
                    pass
            tot = tot + v
        if isinstance(tot, Fraction) and tot.denominator == 1:
            tot = int(tot)
        if isinstance(tot, float) and (tot != tot or abs(tot) > 1e200):
            raise Skip()
        return tot

    def I(self, p):
        v = self.P(p)
        if isinstance(v, float):
            r = round(v)
            if abs(v - r) > 1e-6:
                raise Skip()
            return r
        if isinstance(v, Fraction):
            raise Skip()
        return v

    def N(self, p):
        v = self.I(p)
        if v > LIMIT:
            raise Skip()
        return v

    def tick(self, n=1):
        self.steps += n
        if self.steps > 60000:
            raise Skip()

    def A(self, a):
        e = self.env.get(a)
        if e is not None:
            return e
        self.tick()
        op = a.op
        if op == 'sym':
            return self.sym(a)
        if op == 'ite':
            try:
                c = self.B(a.a[0])
            except Undefined:
                x = self.P(a.a[1])
                if x != self.P(a.a[2]):
                    raise
                return x
            return self.P(a.a[1]) if c else self.P(a.a[2])
        if op == 'rd':
            return self.read(self.arr(a.a[0]), self.I(a.a[1]))
        if op in ('sum', 'prod'):
            n, b, d = a.a
            n = self.N(n)
            var = TM.the_atom(bv(d))
            old = self.env.get(var)
            tot = 0 if op == 'sum' else 1
            for k in range(max(n, 0)):
                self.env[var] = k
                x = self.P(b)
                tot = tot + x if op == 'sum' else tot * x
            self.restore(var, old)
            return tot
        if op == 'first':
            n, b, d = a.a
            n = self.N(n) if n is not None else 400
            lim = n
            var = TM.the_atom(bv(d))
            old = self.env.get(var)
            r = None
            for k in range(max(lim, 0)):
                self.env[var] = k
                if self.B(b):
                    r = k
                    break
            self.restore(var, old)
            if r is None:
                if a.a[0] is None:
                    raise Skip()
                return max(n, 0)
            return r
        if op == 'idiv':
            x, y = self.I(a.a[0]), self.I(a.a[1])
            if y == 0:
                raise Skip()
            return x // y
        if op == 'sdiv':
            x, y = self.I(a.a[0]), self.I(a.a[1])
            if y == 0:
                raise Skip()
            q = abs(x) // abs(y)
            return q if (x >= 0) == (y >= 0) else -q
        if op == 'abs':
            return abs(self.P(a.a[0]))
        if op == 'inv':
            x = self.P(a.a[0])
            if x == 0 or (isinstance(x, float) and abs(x) < EPS):
                raise Skip()
            return Fraction(1) / x if not isinstance(x, float) else 1.0 / x
        if op == 'pow':
            n = self.N(a.a[1])
            if n < 0:
                raise Skip()
            return self.P(a.a[0]) ** n
        if op == 'rec':
            return self.rec(a.a[0], a.a[1], a.a[2])
        if op == 'app':
            return self.app(a)
        if op == 'base':
            raise Skip()
        raise Skip()

    def restore(self, var, old):
        if old is None:
            self.env.pop(var, None)
        else:
            self.env[var] = old

    def sym(self, a):
        n = a.a[0]
        if n in self.syms:
            return self.syms[n]
        if isinstance(n, str):
            k = n.split('#')
            v = self.data(n, k[1] if len(k) > 1 else ('n' if a.nn else 'l' if a.int else 'd'), 0)
            self.syms[n] = v
            return v
        raise Skip()

    def det(self, a):
        n = self.N(a.a[1])
        if n > 9:
            raise Skip()
        old, self.entries = self.entries, {}
        try:
            self.P(a.a[2])
            e = self.entries
        finally:
            self.entries = old
        if len(e) != n * n or any((r, c) not in e for r in range(n) for c in range(n)):
            raise Skip()
        m = [[e[r, c] if isinstance(e[r, c], float) else Fraction(e[r, c]) for c in range(n)] for r in range(n)]
        d = Fraction(1)
        for k in range(n):
            p = max(range(k, n), key=lambda r: abs(m[r][k]))
            if abs(m[p][k]) < EPS:
                return 0
            if p != k:
                m[p], m[k] = m[k], m[p]
                d = -d
            d = d * m[k][k]
            for r in range(k + 1, n):
                q = m[r][k] / m[k][k]
                for c in range(k, n):
                    m[r][c] = m[r][c] - q * m[k][c]
        if isinstance(d, Fraction) and d.denominator == 1:
            return int(d)
        return d

    def app(self, a):
        f = a.a[0]
        if f == 'undef':
            raise Undefined()
        if f == 'lost' or f.startswith('fp_') or f == 'div0':
            raise Skip()
        if f == 'user_det':
            return self.det(a)
        xs = [self.P(x) for x in a.a[1:]]
        x = xs[0]
        if f == 'user_dete':
            if self.entries is None or (xs[0], xs[1]) in self.entries:
                raise Skip()
            self.entries[xs[0], xs[1]] = xs[2]
            return 0
        if f.startswith('user_'):
            if any(isinstance(y, float) for y in xs):
                xs = [round(float(y), 6) for y in xs]
            h = zlib.crc32(('%s|%s' % (f, ','.join(str(Fraction(y)) for y in xs))).encode())
            h ^= h >> 13
            if f == 'user_len':
                return 1 + h % 9
            if a.int:
                return h % 41 - 20
            return Fraction(h % 41 - 20, 4)
        try:
            if f == 'sqrt':
                if x < 0:
                    raise Skip()
                if not isinstance(x, float):
                    q = Fraction(x)
                    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
                    if n * n == q.numerator and d * d == q.denominator:
                        r = Fraction(n, d)
                        return int(r) if r.denominator == 1 else r
                return math.sqrt(x)
            if f == 'trunc':
                if isinstance(x, float) and abs(x - round(x)) < EPS:
                    raise Skip()
                return int(x)
            if f in ('floor', 'ceil'):
                if isinstance(x, float) and abs(x - round(x)) < EPS:
                    raise Skip()
                return math.floor(x) if f == 'floor' else math.ceil(x)
            if f == 'round':
                if isinstance(x, float) and abs(abs(x - math.floor(x)) - .5) < EPS:
                    raise Skip()
                return int(math.floor(abs(x) + Fraction(1, 2))) * (1 if x >= 0 else -1)
            if f == 'f32':
                y = struct.unpack('f', struct.pack('f', float(x)))[0]
                if isinstance(x, float):
                    return y
                r = Fraction(y)
                return int(r) if r.denominator == 1 else r
            if f.startswith('wrap'):
                bits = int(f[4:])
                v = int(x) % (1 << bits)
                return v
            if f == 'fpow':
                y = xs[1]
                if not isinstance(y, float) and y == int(y) and abs(y) < 64:
                    if x == 0 and y < 0:
                        raise Skip()
                    r = (Fraction(x) if not isinstance(x, float) else x) ** int(y)
                    return r
                if x <= 0:
                    raise Skip()
                return float(x) ** float(y)
            if f == 'atan2':
                return math.atan2(x, xs[1])
            if f == 'fmod':
                return math.fmod(x, xs[1])
            if f[0] == 'c' and f.endswith(('_re', '_im')):
                g = {'csqrt': cmath.sqrt, 'clog': cmath.log, 'csin': cmath.sin, 'ccos': cmath.cos, 'ctan': cmath.tan,
                     'csinh': cmath.sinh, 'ccosh': cmath.cosh, 'ctanh': cmath.tanh}.get(f[:-3])
                z = complex(float(xs[0]), float(xs[1]))
                if f[:-3] == 'cpow':
                    w = z ** complex(float(xs[2]), float(xs[3]))
                elif g is None:
                    raise Skip()
                else:
                    w = g(z)
                return w.real if f.endswith('_re') else w.imag
            g = {'exp': math.exp, 'log': math.log, 'log2': math.log2, 'log10': math.log10, 'sin': math.sin, 'cos': math.cos,
                 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'sinh': math.sinh,
                 'cosh': math.cosh, 'tanh': math.tanh, 'expm1': math.expm1, 'log1p': math.log1p,
                 'exp2': lambda v: 2.0 ** float(v), 'cbrt': lambda v: math.copysign(abs(float(v)) ** (1 / 3), v)}.get(f)
            if g is None:
                raise Skip()
            return g(x)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Skip()

    # ------------------------------------------------------------ conditions
    def B(self, b):
        while b.l is not None:
            try:
                v = self.L(b.l)
            except Undefined:
                # the outcome may not depend on it
                x = self.B(b.hi)
                if x != self.B(b.lo):
                    raise
                return x
            b = b.hi if v else b.lo
        return b is T

    def L(self, l):
        op = l.op
        if op in self_env_lits and l in self.env:
            return self.env[l]
        self.tick()
        if op == 'ge':
            return self.I(l.a[0]) >= 0
        if op == 'gt':
            v = self.P(l.a[0])
            if isinstance(v, float) and abs(v) < EPS:
                raise Skip()
            return v > 0
        if op == 'eq':
            v = self.P(l.a[0])
            if isinstance(v, float):
                if abs(v) < EPS:
                    raise Skip()
                return False
            return v == 0
        if op == 'ex':
            n, b, d = l.a
            n = self.N(n) if n is not None else None
            if n is None:
                raise Skip()
            var = TM.the_atom(bv(d))
            old = self.env.get(var)
            r = False
            for k in range(max(n, 0)):
                self.env[var] = k
                if self.B(b):
                    r = True
                    break
            self.restore(var, old)
            return r
        if op == 'bsym':
            n = l.a[0]
            if isinstance(n, tuple):
                raise Skip()
            if n not in self.syms:
                self.syms[n] = bool(self.data(n, 'b', 0))
            return self.syms[n]
        if op == 'brec':
            return self.rec(l.a[0], l.a[1], l.a[2])
        raise Skip()

    # ------------------------------------------------------------ recurrences
    def rec(self, s, j, t):
        n = self.N(t)
        if n < 0:
            raise Skip()
        d = s.d
        run = self.run_of(s)
        if len(run) <= n:
            keys = []
            for i, k in enumerate(s.kinds):
                p = TM.rec_placeholder(k, d, i)
                keys.append(p if k == 'a' else p.l if k == 'b' else TM.the_atom(p))
            var = TM.the_atom(bv(d))
            olds = [(k, self.env.get(k)) for k in keys] + [(var, self.env.get(var))]
            try:
                for it in range(len(run) - 1, n):
                    self.env[var] = it
                    for k, v in zip(keys, run[it]):
                        if v is None:
                            self.env.pop(k, None)
                        else:
                            self.env[k] = v
                    run.append([self.any(x) for x in s.nexts])
            finally:
                for k, o in olds:
                    self.restore(k, o)
        cur = run[n]
        if isinstance(cur[j], UndefMark):
            raise Undefined()
        return cur[j]

    def run_of(self, s):
        """the values of the components after 0, 1, 2... steps, as far as known"""
        fv = FV.get(s)
        if fv is None:
            fv = FV[s] = [x for x in s.fv if not (isinstance(x, TM.Atom) and x.op == 'sym' and isinstance(x.a[0], str) and '@' not in x.a[0] and '!' not in x.a[0])]
        on = []
        for x in fv:
            v = self.env.get(x)
            if v is not None:
                on.append((x, v if isinstance(v, (int, Fraction, float)) else id(v)))
                if isinstance(v, (AV, UndefMark)):
                    self.keep[id(v)] = v
        key = (s, frozenset(on))
        run = self.runs.get(key)
        if run is None:
            run = self.runs[key] = [[self.any(x) for x in s.inits]]
        return run

    def any(self, x):
        try:
            if type(x) is Poly:
                return self.P(x)
            if type(x) is B:
                return self.B(x)
            return self.arr(x)
        except Undefined:
            return UndefMark()

    # ------------------------------------------------------------ arrays
    def arr(self, A):
        e = self.env.get(A)
        if e is not None:
            if isinstance(e, UndefMark):
                raise Undefined()
            return e
        self.tick()
        op = A.op
        if op == 'in':
            return AV(A)
        if op in ('undef', 'zero'):
            return AV(A)
        if op == 'ite':
            return self.arr(A.a[1]) if self.B(A.a[0]) else self.arr(A.a[2])
        if op == 'st':
            base, g, i, v = A.a
            b = self.arr(base)
            if not self.B(g):
                return b
            i = self.I(i)
            try:
                v = self.P(v)
            except Undefined:
                v = UndefMark()
            o = dict(b.over)
            o[i] = v
            return AV(b.base, o)
        if op == 'fold':
            base, n, b, d = A.a
            cur = self.arr(base)
            n = self.N(n)
            var = TM.the_atom(bv(d))
            ph = TM.arr('abv', d)
            o1, o2 = self.env.get(var), self.env.get(ph)
            for k in range(max(n, 0)):
                self.env[var] = k
                self.env[ph] = cur
                cur = self.arr(b)
            self.restore(var, o1)
            self.restore(ph, o2)
            return cur
        if op == 'rec':
            return self.rec(A.a[0], A.a[1], A.a[2])
        if op == 'lam':
            b, d = A.a
            return AV(('lam', b, TM.the_atom(bv(d)), dict(self.env)))
        raise Skip()

    def read(self, av, i):
        v = av.over.get(i)
        if v is not None:
            if isinstance(v, UndefMark):
                raise Undefined()
            return v
        b = av.base
        if type(b) is tuple:
            env = self.env
            self.env = dict(b[3])
            self.env[b[2]] = i
            try:
                return self.P(b[1])
            finally:
                self.env = env
        if b.op == 'zero':
            return 0
        if b.op == 'undef':
            raise Undefined()
        n = b.a[0]
        k = n.split('#')[-1] if '#' in n else 'd'
        return self.data(n, k, i)

class UndefMark:
    pass

self_env_lits = ('bsym',)

_orig_A = Val.A
def _A(self, a):
    v = self.env.get(a)
    if isinstance(v, UndefMark):
        raise Undefined()
    return _orig_A(self, a)
Val.A = _A
