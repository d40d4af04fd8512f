"""Value-graph terms: hash-consed polynomials over atoms, conditions as reduced
ordered decision diagrams over arithmetic literals, and functional arrays.

Terms are closed forms: a loop never appears as a sequence of steps, only as a
binder (sum, product, first, exists, fold) or as a recurrence (rec).
"""
from fractions import Fraction
import math

class Unsupported(Exception):
    pass

_ids = [0]
def _nid():
    _ids[0] += 1
    return _ids[0]

EMPTY = frozenset()

# ----------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'op', 'a', 'int', 'nn', 'fv', 'bd', 'P', 'size')
    def __repr__(self):
        return show_atom(self)

_atoms = {}

def _fvbd(args):
    fv = EMPTY
    bd = 0
    for x in args:
        f = getattr(x, 'fv', None)
        if f is not None:
            if f:
                fv = fv | f if fv else f
            if x.bd > bd:
                bd = x.bd
        elif type(x) is tuple:
            f, b = _fvbd(x)
            if f:
                fv = fv | f
            bd = max(bd, b)
    return fv, bd

def atom(op, *a, int_=True, nn=False):
    k = (op,) + a
    r = _atoms.get(k)
    if r is None:
        r = Atom()
        r.id = _nid()
        r.op = op
        r.a = a
        r.int = int_
        r.nn = nn
        r.P = None
        fv, bd = _fvbd(a)
        if op in ('sym', 'bv'):
            fv = frozenset((r,))
        r.fv = fv
        r.bd = bd
        _atoms[k] = r
    return r

# ----------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('id', 't', 'fv', 'bd', '_cst')
    def __repr__(self):
        return show(self)

_polys = {}

def _mk(d):
    """d: dict mono->coef without zeros"""
    k = frozenset(d.items())
    r = _polys.get(k)
    if r is None:
        r = Poly()
        r.id = _nid()
        r.t = d
        fv = EMPTY
        bd = 0
        for m in d:
            for at, e in m:
                if at.fv:
                    fv = fv | at.fv
                if at.bd > bd:
                    bd = at.bd
        r.fv = fv
        r.bd = bd
        _polys[k] = r
    return r

def num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    return _mk({(): c} if c != 0 else {})

ZERO = num(0)
ONE = num(1)

def _nc(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c

def ap(at):
    if at.P is None:
        at.P = _mk({((at, 1),): 1})
    return at.P

def is_const(p):
    return not p.t or (len(p.t) == 1 and () in p.t)

def cval(p):
    return p.t.get((), 0)

MAXMONO = 4000

def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    d = dict(p.t)
    for m, c in q.t.items():
        v = d.get(m, 0) + c
        if v == 0:
            del d[m]
        else:
            d[m] = _nc(v)
    if len(d) > MAXMONO:
        raise Unsupported('polynomial too large')
    return _mk(d)

def neg(p):
    return _mk({m: -c for m, c in p.t.items()})

def sub(p, q):
    if p is q:
        return ZERO
    return add(p, neg(q))

def scale(p, c):
    if c == 0:
        return ZERO
    if c == 1:
        return p
    return _mk({m: _nc(v * c) for m, v in p.t.items()})

def _mmul(m1, m2):
    """returns (mono) or None if ite atoms need joining"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        v = d.get(a, 0) + e
        if v == 0:
            d.pop(a, None)
        else:
            d[a] = v
    return tuple(sorted(d.items(), key=lambda x: x[0].id))

def _special(m):
    """needs rewriting after a product: two ite atoms with one condition, ite squared"""
    seen = None
    for a, e in m:
        if a.op == 'ite':
            if e > 1:
                return True
            if seen is None:
                seen = [a.a[0]]
            elif a.a[0] in seen:
                return True
            else:
                seen.append(a.a[0])
        elif a.op == 'inv' and e < 0:
            return True
        elif a.op == 'abs' and e > 1 :
            return True
        elif a.op == 'app' and a.a[0] == 'sqrt' and (e > 1 or e < 0 and is_const(a.a[1])):
            return True
    return False

def _rewrite_mono(m, c):
    groups = {}
    rest = []
    out = num(c)
    for a, e in m:
        if a.op == 'ite' and e > 0:
            groups.setdefault(a.a[0], []).append((a, e))
        elif a.op == 'inv' and e < 0:
            out = mul(out, ppow(a.a[0], -e))
        elif a.op == 'abs' and e > 1:
            out = mul(out, ppow(mul(a.a[0], a.a[0]), e // 2))
            if e % 2:
                rest.append((a, 1))
        elif a.op == 'app' and a.a[0] == 'sqrt' and e < 0 and is_const(a.a[1]):
            # 1/sqrt(c) = sqrt(c)/c
            out = scale(out, Fraction(1) / Fraction(cval(a.a[1])) ** ((1 - e) // 2))
            if e % 2:
                rest.append((a, 1))
        elif a.op == 'app' and a.a[0] == 'sqrt' and e > 1:
            out = mul(out, ppow(a.a[1], e // 2))
            if e % 2:
                rest.append((a, 1))
        else:
            rest.append((a, e))
    out = mul(out, _mk({tuple(rest): 1}))
    for cnd, lst in groups.items():
        x, y = ONE, ONE
        for a, e in lst:
            for _ in range(e):
                x = mul(x, a.a[1])
                y = mul(y, a.a[2])
        if len(lst) == 1 and lst[0][1] == 1:
            out = mul(out, ap(lst[0][0]))
        else:
            out = mul(out, ite(cnd, x, y))
    return out

def mul(p, q):
    if not p.t or not q.t:
        return ZERO
    if p is ONE:
        return q
    if q is ONE:
        return p
    if is_const(p):
        return scale(q, cval(p))
    if is_const(q):
        return scale(p, cval(q))
    if len(p.t) * len(q.t) > MAXMONO * 2:
        raise Unsupported('polynomial too large')
    d = {}
    extra = ZERO
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m = _mmul(m1, m2)
            if _special(m):
                extra = add(extra, _rewrite_mono(m, _nc(c1 * c2)))
                continue
            v = d.get(m, 0) + c1 * c2
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = _nc(v)
    return add(_mk(d), extra)

def ppow(p, n):
    r = ONE
    for _ in range(n):
        r = mul(r, p)
    return r

def inv(p):
    """1/p over the reals (p != 0 assumed; a model with p = 0 is never used as a witness)"""
    if is_const(p):
        c = cval(p)
        if c == 0:
            return ap(atom('app', 'div0', ONE, int_=False))
        return num(Fraction(1) / Fraction(c))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(a.op != 'ite' for a, _ in m):
            out = num(Fraction(1) / Fraction(c))
            ds = []
            for a, e in m:
                if a.op == 'inv':
                    out = mul(out, ppow(a.a[0], e))
                else:
                    ds.append((a, -e))
            if _special(ds):
                return mul(out, _rewrite_mono(tuple(ds), 1))
            return mul(out, _mk({tuple(ds): 1}))
        if len(m) == 1 and m[0][0].op == 'ite' and m[0][1] == 1:
            a = m[0][0]
            return scale(ite(a.a[0], inv(a.a[1]), inv(a.a[2])), Fraction(1) / Fraction(c))
    q, c = primitive(p)
    return scale(ap(atom('inv', q, int_=False)), Fraction(1) / Fraction(c))

def content(p):
    g = 0
    den = 1
    for c in p.t.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // math.gcd(den, c.denominator)
    for c in p.t.values():
        g = math.gcd(g, int(c * den))
    return Fraction(g, den) if g else Fraction(1)

def lead(p):
    best = None
    for m in p.t:
        k = tuple((a.id, e) for a, e in m)
        if m and (best is None or k > best[0]):
            best = (k, m)
    return best[1] if best else ()

def primitive(p):
    """p = c*q, q with integer coprime coefficients and positive leading coefficient"""
    c = content(p)
    if p.t.get(lead(p), 0) < 0:
        c = -c
    return scale(p, Fraction(1) / c), c

# ----------------------------------------------------------------- conditions
class Lit:
    __slots__ = ('id', 'op', 'a', 'fv', 'bd')
    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.a)))

_lits = {}

def _lit(op, *a):
    k = (op,) + a
    r = _lits.get(k)
    if r is None:
        r = Lit()
        r.id = _nid()
        r.op = op
        r.a = a
        r.fv, r.bd = _fvbd(a)
        if op == 'bsym':
            r.fv = frozenset((r,))
        _lits[k] = r
    return r

class B:
    __slots__ = ('id', 'l', 'hi', 'lo', 'fv', 'bd', 'n')
    def __repr__(self):
        return show_b(self)

_bdds = {}
F = B(); F.id = _nid(); F.l = None; F.hi = F.lo = None; F.fv = EMPTY; F.bd = 0; F.n = 0
T = B(); T.id = _nid(); T.l = None; T.hi = T.lo = None; T.fv = EMPTY; T.bd = 0; T.n = 0

def _bn(l, hi, lo):
    if hi is lo:
        return hi
    k = (l, hi, lo)
    r = _bdds.get(k)
    if r is None:
        r = B()
        r.id = _nid()
        r.l = l
        r.hi = hi
        r.lo = lo
        r.fv = l.fv | hi.fv | lo.fv
        r.bd = max(l.bd, hi.bd, lo.bd)
        r.n = hi.n + lo.n + 1
        if r.n > 3000:
            raise Unsupported('condition too large')
        _bdds[k] = r
    return r

def blit(l):
    return _bn(l, T, F)

_itememo = {}
def bite(c, a, b):
    if c is T:
        return a
    if c is F:
        return b
    if a is b:
        return a
    if a is T and b is F:
        return c
    k = (c, a, b)
    r = _itememo.get(k)
    if r is not None:
        return r
    v = c.l
    if a.l is not None and a.l.id < v.id:
        v = a.l
    if b.l is not None and b.l.id < v.id:
        v = b.l
    def co(x, s):
        if x.l is v:
            return x.hi if s else x.lo
        return x
    r = _bn(v, bite(co(c, 1), co(a, 1), co(b, 1)), bite(co(c, 0), co(a, 0), co(b, 0)))
    _itememo[k] = r
    return r

def bnot(a):
    return bite(a, F, T)
def band(a, b):
    return bite(a, b, F)
def bor(a, b):
    return bite(a, T, b)
def biff(a, b):
    return bite(a, b, bnot(b))
def bands(xs):
    r = T
    for x in xs:
        r = band(r, x)
    return r
def bors(xs):
    r = F
    for x in xs:
        r = bor(r, x)
    return r

_conmemo = {}
def constrain(f, c):
    """a condition equal to f wherever c holds, as small as we can make it"""
    if c is T or f is T or f is F:
        return f
    if c is F:
        return f
    if f is c:
        return T
    k = (f, c)
    r = _conmemo.get(k)
    if r is not None:
        return r
    if c.l.id < f.l.id:
        r = constrain(f, bor(c.hi, c.lo))
    else:
        if c.l is f.l:
            ch, cl = c.hi, c.lo
        else:
            ch = cl = c
        if ch is F:
            r = constrain(f.lo, cl)
        elif cl is F:
            r = constrain(f.hi, ch)
        else:
            r = _bn(f.l, constrain(f.hi, ch), constrain(f.lo, cl))
    if r.n > f.n:
        r = f
    _conmemo[k] = r
    return r

def blits(b, acc=None):
    out = []
    seen = set()
    st = [b]
    while st:
        x = st.pop()
        if x.l is None or x in seen:
            continue
        seen.add(x)
        out.append(x.l)
        st.append(x.hi)
        st.append(x.lo)
    return sorted(set(out), key=lambda l: l.id)

def cofactor(b, l, s, memo=None):
    if memo is None:
        memo = {}
    if b.l is None or b.l.id > l.id:
        return b
    r = memo.get(b)
    if r is None:
        if b.l is l:
            r = b.hi if s else b.lo
        else:
            r = _bn(b.l, cofactor(b.hi, l, s, memo), cofactor(b.lo, l, s, memo))
        memo[b] = r
    return r

_essmemo = {}
def essential(b):
    """literals forced by b: frozenset of (lit, bool)"""
    if b.l is None:
        return EMPTY
    r = _essmemo.get(b)
    if r is None:
        if b.lo is F:
            r = essential(b.hi) | {(b.l, True)}
        elif b.hi is F:
            r = essential(b.lo) | {(b.l, False)}
        else:
            r = essential(b.hi) & essential(b.lo)
        _essmemo[b] = r
    return r

# -- arithmetic literals

def _int_tight(p):
    """integer p >= 0 with integer coefficients: divide by gcd of non-constant coefs, floor the constant"""
    g = 0
    for m, c in p.t.items():
        if isinstance(c, Fraction):
            den = 1
            for cc in p.t.values():
                if isinstance(cc, Fraction):
                    den = den * cc.denominator // math.gcd(den, cc.denominator)
            return _int_tight(scale(p, den))
        if m:
            g = math.gcd(g, c)
    if g > 1:
        d = {m: (c // g) for m, c in p.t.items()}
        d = {m: c for m, c in d.items() if c}
        return _mk(d)
    return p

def find_ite(p):
    for m in p.t:
        for a, e in m:
            if a.op == 'ite':
                return a
    return None

def split_ite(p, at):
    """the two arms of p for ite atom at"""
    cnd = at.a[0]
    def arm(s):
        d = ZERO
        for m, c in p.t.items():
            x = num(c)
            hit = False
            keep = []
            for a, e in m:
                if a.op == 'ite':
                    k = None
                    if a.a[0] is cnd:
                        k = s
                    if k is None:
                        keep.append((a, e))
                    else:
                        v = a.a[1] if k else a.a[2]
                        x = mul(x, ppow(v, e) if e > 0 else ppow(inv(v), -e))
                else:
                    keep.append((a, e))
            x = mul(x, _mk({tuple(keep): 1}))
            d = add(d, x)
        return d
    return arm(True), arm(False)

def nonneg_syn(p):
    """syntactically non-negative integer polynomial"""
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if not a.nn:
                return False
    return True

BIG = 1 << 55

def sizelike(p):
    for m, c in p.t.items():
        if m and (abs(c) > (1 << 20) or any((not a.int) or e < 0 or not a.nn for a, e in m)):
            return False
    return True

_split_depth = [0]

_absmemo = {}
def absorb(c):
    """a conjunction (or disjunction) of few order literals without those another one implies"""
    if c.n > 4 or c.n < 2:
        return c
    r = _absmemo.get(c)
    if r is None:
        r = c
        for neg_ in (False, True):
            b = bnot(c) if neg_ else c
            ls = []
            x = b
            while x.l is not None:
                if x.l.op != 'ge':
                    break
                if x.lo is F:
                    ls.append(x.l.a[0]); x = x.hi
                elif x.hi is F:
                    ls.append(sub(neg(x.l.a[0]), ONE)); x = x.lo
                else:
                    break
            if x is not T:
                continue
            keep = list(ls)
            for p in ls:
                if any(q is not p and nonneg_syn(sub(p, q)) for q in keep):
                    keep.remove(p)
            if len(keep) < len(ls):
                r = bands(ge0(p) for p in keep)
                if neg_:
                    r = bnot(r)
                break
        _absmemo[c] = r
    return r

def minmax(c, x, y):
    """is  c ? x : y  the smaller / the larger of the two (integers)?"""
    l = c.l
    if l is None or l.op != 'ge':
        return None
    if c.hi is T and c.lo is F:
        q = l.a[0]
    elif c.hi is F and c.lo is T:
        q = sub(neg(l.a[0]), ONE)
    else:
        return None
    d = sub(x, y)
    if not d.t or not q.t:
        return None
    m = lead(q)
    dc = d.t.get(m)
    if not m or not dc:
        return None
    k = Fraction(dc) / q.t[m]
    # d == k*q  or  d == k*(q+1): in both cases its sign under c and under not c is known
    for qq in (q, add(q, ONE)):
        if sub(scale(qq, k), d) == ZERO:
            return 'max' if k > 0 else 'min'
    return None

def ge0(p):
    """integer p >= 0"""
    if is_const(p):
        return T if cval(p) >= 0 else F
    a = find_ite(p)
    if a is not None:
        x, y = split_ite(p, a)
        mm = minmax(a.a[0], x, y)
        if mm == 'min':
            return band(ge0(x), ge0(y))
        if mm == 'max':
            return bor(ge0(x), ge0(y))
        return bite(a.a[0], ge0(x), ge0(y))
    p = _int_tight(p)
    if nonneg_syn(p):
        return T
    np = sub(neg(p), ONE)
    if nonneg_syn(np):
        return F
    c = cval(p)
    if abs(c) >= BIG and sizelike(p):
        return T if c > 0 else F
    # base addresses are positive and far apart: handled by eq only
    # product of non-negatives: x*y - 1 >= 0  <=>  x>=1 and y>=1
    if c == -1 and len(p.t) == 2:
        m = [m for m in p.t if m][0]
        if p.t[m] >= 1 and all(at.nn and at.int for at, e in m) and (len(m) > 1 or m[0][1] > 1):
            return bands(ge0(sub(ap(at), ONE)) for at, e in m)
    if p.t[lead(p)] < 0:
        return bnot(blit(_lit('ge', _int_tight(np))))
    return blit(_lit('ge', p))

def gt_int(p):
    return ge0(sub(p, ONE))

def bases(p):
    """base atoms occurring linearly in p"""
    r = []
    for m, c in p.t.items():
        for a, e in m:
            if a.op in ('base', 'fn', 'vslot'):
                r.append((a, c if len(m) == 1 else None))
    return r

def eq0(p, real=False):
    if is_const(p):
        return T if cval(p) == 0 else F
    a = find_ite(p)
    if a is not None:
        x, y = split_ite(p, a)
        return bite(a.a[0], eq0(x, real), eq0(y, real))
    bs = bases(p)
    if bs:
        if len(bs) == 1:
            return F                      # address vs null, interior pointers of live objects
        if len(bs) == 2 and {bs[0][1], bs[1][1]} == {1, -1}:
            if bs[0][0].op == 'base' and bs[1][0].op == 'base' and bs[0][0].a[0] == bs[1][0].a[0] and bs[0][0].a[1] != bs[1][0].a[1]:
                pass
            else:
                return F                  # different objects
        else:
            raise Unsupported('address comparison')
    if not real:
        if nonneg_syn(p):
            c = cval(p)
            if c > 0:
                return F
            return bnot(bors(ge0(sub(_mk({m: 1}), ONE)) for m in p.t))
        np = neg(p)
        if nonneg_syn(np):
            c = cval(np)
            if c > 0:
                return F
            return bnot(bors(ge0(sub(_mk({m: 1}), ONE)) for m in np.t))
        # integrality
        g = 0
        ok = all(not isinstance(c, Fraction) for c in p.t.values())
        if ok:
            for m, c in p.t.items():
                if m:
                    g = math.gcd(g, c)
            if g > 1 and cval(p) % g:
                return F
        if abs(cval(p)) >= BIG and sizelike(p):
            return F
    q, _ = primitive(p)
    if real and len(q.t) > 1 and cval(q) == 0 and len(q.t) <= 8:
        # a sum of squares and magnitudes is zero iff each is
        sg = next(iter(q.t.values())) > 0
        if real_nonneg(q if sg else neg(q)):
            return bands(eq0(_mk({m: 1}), True) for m in q.t)
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if len(m) > 1 or m[0][1] != 1:
            # product is zero iff a factor is
            r = F
            for at, e in m:
                if e > 0:
                    r = bor(r, eq0(ap(at), real))
            return r
        at = m[0][0]
        if at.op == 'abs':
            return eq0(at.a[0], real)
        if at.op == 'app' and at.a[0] == 'sqrt':
            return eq0(at.a[1], True)
    return blit(_lit('eq', q))

def gt0(p):
    """real p > 0"""
    if is_const(p):
        return T if cval(p) > 0 else F
    a = find_ite(p)
    if a is not None:
        x, y = split_ite(p, a)
        return bite(a.a[0], gt0(x), gt0(y))
    if real_nonneg(p):
        return bnot(eq0(p, True)) if cval(p) == 0 else T
    if real_nonneg(neg(p)):
        return F
    f = common_nn(p)
    if f is not None:
        return band(bnot(eq0(f, True)), gt0(mul(p, _mk({tuple((a, -e) for a, e in m): 1 for m in f.t}))))
    if len(p.t) <= 2:
        # b + a*sqrt(c)
        for m, x in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].a[0] == 'sqrt' and is_const(m[0][0].a[1]):
                y = p.t.get((), 0)
                if len(p.t) == 2 and not y:
                    break
                k = cval(m[0][0].a[1])
                if x > 0:
                    return T if y >= 0 or x * x * k > y * y else F
                return T if y > 0 and x * x * k < y * y else F
    q, c = primitive(p)
    if c > 0:
        return blit(_lit('gt', q))
    return band(bnot(blit(_lit('gt', q))), bnot(eq0(q, True)))

def common_nn(p):
    """a non-negative real factor (a product of magnitudes) all terms have in common"""
    if len(p.t) < 2:
        return None
    it = iter(p.t)
    com = {a: e for a, e in next(it) if a.nn and not a.int and e > 0 and a.op in ('abs', 'app')}
    for m in it:
        if not com:
            return None
        d = dict(m)
        com = {a: min(e, d[a]) for a, e in com.items() if d.get(a, 0) > 0}
    if not com:
        return None
    return _mk({tuple(sorted(com.items(), key=lambda x: x[0].id)): 1})

def real_nonneg(p):
    """syntactic: p >= 0 over the reals"""
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0 and not (a.op == 'ite'):
                continue
            if a.nn:
                continue
            return False
    return True

def bsym(name):
    return blit(_lit('bsym', name))

# ----------------------------------------------------------------- ite and friends

def ite(c, x, y):
    if c is T:
        return x
    if c is F:
        return y
    if x is y:
        return x
    c = absorb(c)
    x = restrict(x, c)
    y = restrict(y, bnot(c))
    if x is y:
        return x
    if c.l.op in ('gt', 'eq', 'ge'):
        # where the arms agree the choice does not matter
        d = sub(x, y)
        if len(d.t) <= 8 and not is_const(d) and find_ite(d) is None:
            if c.l.op != 'ge':
                e = eq0(d, True)
                if e.l is not None and e.hi is T and e.lo is F:
                    c2 = cofactor(c, e.l, False)
                    if c2 is not c:
                        return ite(c2, x, y)
            else:
                if x.id > y.id:
                    x, y, c, d = y, x, bnot(c), neg(d)
                if c is gt_int(d):
                    c = ge0(d)
                elif c is gt_int(neg(d)):
                    c = ge0(neg(d))
            # a magnitude
            if is_const(add(x, y)) and not add(x, y).t and c.l.op != 'eq':
                g = gt0(x)
                if band(c, gt0(neg(x))) is F and band(bnot(c), g) is F:
                    return absr(x)
                if band(c, g) is F and band(bnot(c), gt0(neg(x))) is F:
                    return neg(absr(x))
    if all_int(x) and all_int(y):
        d = sub(x, y)
        if len(d.t) <= 4 and not is_const(d) and find_ite(d) is None:
            e = bnot(eq0(d))
            if band(bnot(c), e) is F:
                return x
            if band(c, e) is F:
                return y
    # pull out the common part
    common = {}
    for m, k in x.t.items():
        if y.t.get(m) == k:
            common[m] = k
    if common:
        cp = _mk(common)
        return add(cp, ite(c, sub(x, cp), sub(y, cp)))
    # canonical polarity of the condition: prefer the smaller id of c / not c
    n = bnot(c)
    if n.id < c.id:
        c, x, y = n, y, x
    # factor common scalars
    g1 = content(x) if x.t else None
    g2 = content(y) if y.t else None
    if x.t and y.t:
        g = g1 if g1 == g2 else Fraction(math.gcd(g1.numerator * g2.denominator, g2.numerator * g1.denominator), g1.denominator * g2.denominator)
    else:
        g = g1 or g2
    if g != 1 and g:
        return scale(ite(c, scale(x, 1 / g), scale(y, 1 / g)), g)
    # arms that begin with the same test
    isint = all_int(x) and all_int(y)
    at = atom('ite', c, x, y, int_=isint, nn=arm_nn(x) and arm_nn(y))
    return ap(at)

def arm_nn(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if not a.nn:
                return False
    return True

def all_int(p):
    for m, c in p.t.items():
        if isinstance(c, Fraction):
            return False
        for a, e in m:
            if not a.int or e < 0:
                return False
    return True

_resmemo = {}
def restrict(p, c):
    """p simplified under condition c (top-level ite atoms only)"""
    if c is T or c is F:
        return p
    k = (p, c)
    r = _resmemo.get(k)
    if r is not None:
        return r
    r = p
    cl = set(blits(c))
    for m in p.t:
        for a, e in m:
            if a.op == 'ite' and not cl.isdisjoint(blits(a.a[0])):
                d = a.a[0]
                if band(c, bnot(d)) is F:
                    r = restrict(split_ite(p, a)[0], c)
                elif band(c, d) is F:
                    r = restrict(split_ite(p, a)[1], c)
                else:
                    d2 = constrain(d, c)
                    x2 = restrict(a.a[1], c)
                    y2 = restrict(a.a[2], c)
                    if d2 is d and x2 is a.a[1] and y2 is a.a[2]:
                        continue
                    x, y = split_ite(p, a)
                    if d2 is d:
                        continue
                    r2 = ite(d2, x, y)
                    if r2 is p:
                        continue
                    r = r2
                _resmemo[k] = r
                return r
    _resmemo[k] = r
    return r

def b2p(b):
    return ite(b, ONE, ZERO)

def absr(p):
    if is_const(p):
        return num(abs(cval(p)))
    a = find_ite(p)
    if a is not None and len(p.t) == 1:
        x, y = split_ite(p, a)
        return ite(a.a[0], absr(x), absr(y))
    if real_nonneg(p):
        return p
    if real_nonneg(neg(p)):
        return neg(p)
    q, c = primitive(p)
    if len(q.t) == 1:
        (m, k), = q.t.items()
        if len(m) > 1 or m[0][1] != 1:
            r = ONE
            for at, e in m:
                f = absr(ap(at)) if e % 2 else ap(at)
                r = mul(r, ppow(f, e) if e > 0 else ppow(inv(f), -e))
            return scale(r, abs(c))
    return scale(ap(atom('abs', q, int_=all_int(q), nn=True)), abs(c))

def app(name, *ps, int_=False):
    if name == 'sqrt':
        p = ps[0]
        if is_const(p):
            c = Fraction(cval(p))
            if c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return num(Fraction(n, d))
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 2:
                return absr(ap(m[0][0]))
    if name == 'exp' and is_const(ps[0]) and cval(ps[0]) == 0:
        return ONE
    if name == 'trunc':
        p = ps[0]
        if all_int(p):
            return p
        if is_const(p):
            return num(int(cval(p)))
        int_ = True
    if name == 'f32':
        p = ps[0]
        if is_const(p):
            import struct
            try:
                return num(Fraction(struct.unpack('f', struct.pack('f', float(cval(p))))[0]))
            except OverflowError:
                pass
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][0].op == 'app' and m[0][0].a[0] == 'f32':
                return p
            if c in (1, -1) and len(m) == 1 and m[0][1] == 1 and is_f32_atom(m[0][0]):
                return p
        if all_int(p):
            return p
    if name == 'copysign':
        # |x| with the sign of y
        x, y = ps
        return mul(absr(x), app('sgn', y))
    if name == 'sgn':
        p = ps[0]
        if is_const(p):
            return num(1 if cval(p) >= 0 else -1)
        return ite(bor(gt0(p), eq0(p, True)), ONE, num(-1))
    nn = name in ('sqrt', 'exp', 'hypot', 'expe')
    return ap(atom('app', name, *ps, int_=int_, nn=nn))

def is_f32_atom(a):
    if a.op == 'rd' and a.a[0].op == 'in':
        return a.a[0].a[0].endswith('#f')
    if a.op == 'sym':
        return a.a[0].endswith('#f')
    return False

def idiv(p, q, dec=None):
    """floor(p/q) for p >= 0, q >= 1 (unsigned division). dec(cond)->True/False/None"""
    if is_const(q):
        c = cval(q)
        if c == 1:
            return p
        if c == 0:
            return ap(atom('app', 'div0', ONE, int_=True))
        if is_const(p):
            return num(int(cval(p)) // int(c))
        # exact part
        d1, d2 = {}, {}
        for m, k in p.t.items():
            if isinstance(k, Fraction):
                break
            qq = k // c
            r = k - qq * c
            if qq:
                d1[m] = qq
            if r:
                d2[m] = r
        else:
            if d1:
                rest = _mk(d2)
                if is_const(rest):
                    return add(_mk(d1), num(cval(rest) // c))
                if dec and dec(band(ge0(rest), ge0(sub(sub(num(c), ONE), rest)))) is True:
                    return _mk(d1)
                if nonneg_syn(rest) and nonneg_syn(_mk(d1)):
                    return add(_mk(d1), idiv(rest, q, dec))
    a = find_ite(p)
    if a is not None and a.op == 'ite':
        x, y = split_ite(p, a)
        return ite(a.a[0], idiv(x, q, dec), idiv(y, q, dec))
    a = find_ite(q)
    if a is not None:
        x, y = split_ite(q, a)
        return ite(a.a[0], idiv(p, x, dec), idiv(p, y, dec))
    if not p.t:
        return ZERO
    if not is_const(q):
        # p = q*s + rest when every monomial divisible by q (q a single monomial, or q linear)
        s, rest = pdiv(p, q)
        if s.t:
            if not rest.t:
                return s
            if dec:
                lo, hi = ge0(rest), ge0(sub(sub(q, ONE), rest))
                if dec(band(lo, hi)) is True:
                    return s
                if dec(hi) is True and dec(ge0(add(rest, q))) is True:
                    return ite(lo, s, sub(s, ONE))
                if dec(lo) is True and dec(ge0(sub(sub(scale(q, 2), ONE), rest))) is True:
                    return ite(hi, s, add(s, ONE))
        elif dec and dec(band(ge0(p), ge0(sub(sub(q, ONE), p)))) is True:
            return ZERO
    elif dec and dec(band(ge0(p), ge0(sub(sub(q, ONE), p)))) is True:
        return ZERO
    return ap(atom('idiv', p, q, int_=True, nn=True))

def imod(p, q, dec=None):
    return sub(p, mul(q, idiv(p, q, dec)))

def sdiv(p, q):
    """C++ integer division"""
    if is_const(q) and cval(q) in (1, -1):
        return scale(p, cval(q))
    if is_const(p) and is_const(q) and cval(q) != 0:
        a, b = int(cval(p)), int(cval(q))
        r = abs(a) // abs(b)
        return num(r if (a >= 0) == (b >= 0) else -r)
    if not p.t:
        return ZERO
    if is_const(q) and cval(q) != 0:
        c = cval(q)
        if all((not isinstance(k, Fraction)) and k % c == 0 for k in p.t.values()):
            return _mk({m: k // c for m, k in p.t.items()})
    a = find_ite(p)
    if a is not None:
        x, y = split_ite(p, a)
        return ite(a.a[0], sdiv(x, q), sdiv(y, q))
    return ap(atom('sdiv', p, q, int_=True))

def pdiv(p, q):
    """multivariate division of p by q w.r.t. the leading monomial of q: p = q*s + r"""
    lm = lead(q)
    lc = q.t[lm]
    if lc not in (1, -1):
        if len(q.t) != 1:
            return ZERO, p
    s = ZERO
    r = ZERO
    cur = p
    for _ in range(60):
        hit = None
        for m, c in cur.t.items():
            if isinstance(c, Fraction) or c % lc:
                continue
            d = dict(m)
            ok = True
            for a, e in lm:
                if d.get(a, 0) < e:
                    ok = False
                    break
            if ok:
                hit = (m, c)
                break
        if not hit:
            return s, cur
        m, c = hit
        d = dict(m)
        for a, e in lm:
            d[a] -= e
            if not d[a]:
                del d[a]
        qm = _mk({tuple(sorted(d.items(), key=lambda x: x[0].id)): c // lc})
        s = add(s, qm)
        cur = sub(cur, mul(qm, q))
    return s, cur

# ----------------------------------------------------------------- symbols and binders

def sym(name, int_=True, nn=False):
    return ap(atom('sym', name, int_=int_, nn=nn))

_fresh = [0]
def fresh(prefix='t', int_=True, nn=True):
    _fresh[0] += 1
    return ap(atom('sym', '%s!%d' % (prefix, _fresh[0]), int_=int_, nn=nn))

def the_atom(p):
    (m, c), = p.t.items()
    return m[0][0]

def bv(d):
    return ap(atom('bv', d, int_=True, nn=True))

def has(t, p):
    return the_atom(p) in t.fv

def close(var, *bodies):
    """rename var to the canonical bound variable; returns (depth, bodies)"""
    d = max([b.bd for b in bodies] + [0]) + 1
    m = {the_atom(var): bv(d)}
    out = [subst(b, m, raw=True) for b in bodies]
    return d, out

def msum(var, n, body):
    """sum of body for 0 <= var < n"""
    if not body.t:
        return ZERO
    va = the_atom(var)
    if is_const(n) and cval(n) <= 0:
        return ZERO
    out = ZERO
    for m, c in body.t.items():
        free = []
        dep = []
        for a, e in m:
            (dep if va in a.fv else free).append((a, e))
        f = _mk({tuple(free): c})
        if not dep:
            out = add(out, mul(f, n))
            continue
        if len(dep) == 1 and dep[0][1] == 1 and dep[0][0].op == 'ite':
            a = dep[0][0]
            r = _sum_ite(var, va, n, a)
            if r is not None:
                out = add(out, mul(f, r))
                continue
        if len(dep) == 1 and dep[0] == (va, 1):
            # n(n-1)/2
            out = add(out, mul(f, scale(mul(n, sub(n, ONE)), Fraction(1, 2))))
            continue
        bp = _mk({tuple(dep): 1})
        if is_const(n) and cval(n) <= 6:
            for k in range(int(cval(n))):
                out = add(out, mul(f, subst(bp, {va: num(k)})))
            continue
        if len(dep) > 1:
            r = None
            for k, (a, e) in enumerate(dep):
                if e == 1 and a.op == 'ite' and a.a[0].n == 1 and (a.a[0].l.op == 'eq' or va not in a.a[0].fv):
                    rest = _mk({tuple(dep[:k] + dep[k + 1:]): 1})
                    r = _sum_ite(var, va, n, a, mul(a.a[1], rest), mul(a.a[2], rest))
                    if r is not None:
                        break
            if r is not None:
                out = add(out, mul(f, r))
                continue
        d, (b,) = close(var, bp)
        out = add(out, mul(f, ap(atom('sum', n, b, d, int_=all_int(bp), nn=arm_nn(bp)))))
    return out

def _sum_ite(var, va, n, a, x=None, y=None):
    """sum of ite(var == e, x, y)-like bodies"""
    c = a.a[0]
    if x is None:
        x, y = a.a[1:]
    if c.n == 1:
        l = c.l
        if l.op == 'eq' and va in l.fv:
            r = solve_lin(l.a[0], va)
            if r is not None:
                pos = c.hi is T
                on, off = (x, y) if pos else (y, x)
                inr = band(ge0(r), ge0(sub(sub(n, ONE), r)))
                base = msum(var, n, off)
                if subst(on, {va: r}) is subst(off, {va: r}):
                    return base
                return add(base, ite(inr, sub(subst(on, {va: r}), subst(off, {va: r})), ZERO))
        if l.op == 'ge' and va in l.fv and x is not ZERO and y is not ZERO:
            return add(msum(var, n, ite(c, x, ZERO)), msum(var, n, ite(c, ZERO, y)))
        if l.op == 'ge' and va in l.fv and va not in x.fv and va not in y.fv and (x is ZERO or y is ZERO):
            # how many of 0..n-1 lie on one side of a bound
            k = l.a[0].t.get(((va, 1),))
            e = sub(l.a[0], scale(ap(va), k)) if k in (1, -1) else None
            if e is not None and va not in e.fv:
                up = k == 1
                L = neg(e) if up else add(e, ONE)
                low = ite(ge0(L), ite(ge0(sub(n, L)), L, n), ZERO)
                hit = sub(n, low) if up else low
                if (c.hi is T) == (x is not ZERO):
                    return mul(hit, x if x is not ZERO else y)
                return mul(sub(n, hit), x if x is not ZERO else y)
    if va not in c.fv:
        return ite(c, msum(var, n, x), msum(var, n, y))
    return None

def solve_lin(p, va):
    """p = k*va + r = 0 -> va = -r/k for k = +-1"""
    k = p.t.get(((va, 1),))
    if k not in (1, -1):
        return None
    d = {m: c for m, c in p.t.items() if m != ((va, 1),)}
    r = _mk(d)
    if va in r.fv:
        return None
    return scale(r, -k)

def mprod(var, n, body):
    va = the_atom(var)
    if body is ONE:
        return ONE
    if va not in body.fv:
        return mpow(body, n)
    d, (b,) = close(var, body)
    return ap(atom('prod', n, b, d, int_=all_int(body)))

def mpow(b, n):
    if is_const(n) and 0 <= cval(n) <= 8:
        return ppow(b, cval(n))
    if b is ONE:
        return ONE
    return ap(atom('pow', b, n, int_=all_int(b)))

def mfirst(var, n, body):
    """least 0 <= var < n with body, else n (n None: unbounded)"""
    if body is F:
        if n is None:
            raise Unsupported('loop without exit')
        return n
    va = the_atom(var)
    if va not in body.fv and n is not None:
        return ite(band(body, ge0(sub(n, ONE))), ZERO, n)
    if n is not None:
        r = fm_bounds(va, body)
        if r is not None:
            rest, lo, up = r
            lo = [ZERO] + lo
            if len(lo) <= 2:
                x = lo[0] if len(lo) == 1 else ite(ge0(lo[1]), lo[1], ZERO)
                return ite(mexists(var, n, body), x, n)
    d, (b,) = close(var, body)
    return ap(atom('first', n, b, d, int_=True, nn=True))

def fm_bounds(va, body):
    """body as rest && lo_i <= va && va <= up_j, or None"""
    if body.n > 8 or body.l is None:
        return None
    x = body
    rest, lo, up = [], [], []
    while x.l is not None:
        if x.lo is F:
            l, s, x = x.l, True, x.hi
        elif x.hi is F:
            l, s, x = x.l, False, x.lo
        else:
            return None
        if va not in l.fv:
            rest.append(blit(l) if s else bnot(blit(l)))
            continue
        p = l.a[0]
        if l.op == 'eq' and s and all_int(p):
            r = solve_lin(p, va)
            if r is None:
                return None
            lo.append(r)
            up.append(r)
            continue
        if l.op != 'ge':
            return None
        if not s:
            p = sub(neg(p), ONE)
        c = None
        for m, k in p.t.items():
            if any(a is va for a, e in m):
                if m != ((va, 1),):
                    return None
                c = k
            elif any(va in a.fv for a, e in m):
                return None
        if c == 1:
            lo.append(sub(ap(va), p))
        elif c == -1:
            up.append(add(ap(va), p))
        else:
            return None
    return (bands(rest), lo, up) if x is T else None

def mexists(var, n, body):
    if body is F:
        return F
    va = the_atom(var)
    if va not in body.fv:
        return band(body, ge0(sub(n, ONE)))
    if is_const(n):
        if cval(n) <= 0:
            return F
        if cval(n) <= 4:
            return bors(bsubst(body, {va: num(k)}) for k in range(cval(n)))
    # exists var: var == e and rest
    ess = essential(body)
    for l, s in ess:
        if s and l.op == 'eq' and va in l.fv:
            r = solve_lin(l.a[0], va)
            if r is not None:
                return bands([ge0(r), ge0(sub(sub(n, ONE), r)), bsubst(body, {va: r})])
    r = fm_bounds(va, body)
    if r is not None:
        rest, lo, up = r
        if len(lo) * len(up) <= 4:
            lo = lo + [ZERO]
            up = up + [sub(n, ONE)]
            return bands([rest] + [ge0(sub(u, l)) for l in lo for u in up])
    d, (b,) = close(var, body)
    return blit(_lit('ex', n, b, d))

# ----------------------------------------------------------------- arrays
class Arr:
    __slots__ = ('id', 'op', 'a', 'fv', 'bd')
    def __repr__(self):
        return '<%s %s>' % (self.op, ' '.join(map(str, self.a))[:4000])

_arrs = {}
def arr(op, *a):
    k = (op,) + a
    r = _arrs.get(k)
    if r is None:
        r = Arr()
        r.id = _nid()
        r.op = op
        r.a = a
        r.fv, r.bd = _fvbd(a)
        if op in ('ph', 'abv'):
            r.fv = frozenset((r,))
        _arrs[k] = r
    return r

def a_in(name):
    return arr('in', name)

def a_ite(c, x, y):
    if c is T:
        return x
    if c is F:
        return y
    if x is y:
        return x
    c = absorb(c)
    # the same loop with another number of rounds
    if x.op == 'fold' and y.op == 'fold' and x.a[0] is y.a[0] and x.a[2] is y.a[2] and x.a[3] == y.a[3]:
        return arr('fold', x.a[0], ite(c, x.a[1], y.a[1]), x.a[2], x.a[3])
    # store over the same base: guarded store
    if x.op == 'st' and x.a[0] is y:
        return a_st(y, band(c, x.a[1]), x.a[2], x.a[3])
    if y.op == 'st' and y.a[0] is x:
        return a_st(x, band(bnot(c), y.a[1]), y.a[2], y.a[3])
    n = bnot(c)
    if n.id < c.id:
        c, x, y = n, y, x
    return arr('ite', c, x, y)

def a_st(base, g, idx, val):
    if g is F:
        return base
    if base.op == 'st' and base.a[2] is idx and (g is T or base.a[1] is g):
        return a_st(base.a[0], g, idx, val)
    if base.op == 'st' and base.a[2] is idx:
        g0 = base.a[1]
        return a_st(base.a[0], bor(g, g0), idx, ite(g, val, base.a[3]))
    if val.t and len(val.t) == 1:
        (m, c), = val.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'rd' and m[0][0].a[0] is base and m[0][0].a[1] is idx:
            return base
    return arr('st', base, g, idx, val)

def a_fold(base, var, n, ph, body):
    """fold over var in [0,n): X := body(X); body is an array term over placeholder ph"""
    if body is ph:
        return base
    if is_const(n) and cval(n) <= 0:
        return base
    if is_const(n) and cval(n) <= 8:
        r = base
        for k in range(int(cval(n))):
            r = subst(body, {the_atom(var): num(k), ph: r})
        return r
    d = max(body.bd, 0) + 1
    b = subst(body, {the_atom(var): bv(d), ph: arr('abv', d)}, raw=True)
    return arr('fold', base, n, b, d)

def open_fold(f, var=None, ph=None):
    base, n, b, d = f.a
    var = var or fresh()
    if ph is None:
        _fresh[0] += 1
        ph = arr('ph', _fresh[0])
    return base, n, var, ph, subst(b, {the_atom(bv(d)): var, arr('abv', d): ph}, raw=True)

# ----------------------------------------------------------------- recurrences
# system: ('sys', kinds, inits, nexts, d): comps bound as rv(d,j) / arr('abv', (d,j)) / bool lit
_systems = {}

def rec_placeholder(kind, d, j):
    if kind == 'a':
        return arr('abv', (d, j))
    if kind == 'b':
        return blit(_lit('bsym', ('rv', d, j)))
    return ap(atom('sym', ('rv', d, j, kind), int_=(kind in 'in'), nn=(kind == 'n')))

class Sys:
    __slots__ = ('id', 'kinds', 'inits', 'nexts', 'd', 'fv', 'bd')
    def __repr__(self):
        return 'sys%d' % self.id

def mk_sys(kinds, inits, nexts, var, phs):
    d = max([x.bd for x in nexts] + [0]) + 1
    m = {the_atom(var): bv(d)}
    for j, k in enumerate(kinds):
        key = phs[j]
        tgt = rec_placeholder(k, d, j)
        if k == 'a':
            m[key] = tgt
        elif k == 'b':
            m[key.l] = tgt
        else:
            m[the_atom(key)] = tgt
    nx = tuple(subst(x, m, raw=True) for x in nexts)
    key = (tuple(kinds), tuple(inits), nx, d)
    s = _systems.get(key)
    if s is None:
        s = Sys()
        s.id = _nid()
        s.kinds, s.inits, s.nexts, s.d = key
        own = set([the_atom(bv(d))])
        for j, k in enumerate(kinds):
            p = rec_placeholder(k, d, j)
            own.add(p if k == 'a' else (p.l if k == 'b' else the_atom(p)))
        fv, bd = _fvbd(s.inits + s.nexts)
        s.fv = fv - own
        s.bd = max(bd, d)
        _systems[key] = s
    return s

def open_sys(s):
    """the components' next values over a fresh iteration and fresh placeholders"""
    t = fresh()
    m = {the_atom(bv(s.d)): t}
    phs = []
    for j, k in enumerate(s.kinds):
        _fresh[0] += 1
        own = rec_placeholder(k, s.d, j)
        if k == 'a':
            n = arr('ph', '%s#%s' % (_fresh[0], elem_kind(s.inits[j])))
            m[own] = n
        elif k == 'b':
            n = bsym(('ph', _fresh[0]))
            m[own.l] = n
        else:
            n = ap(atom('sym', ('open', _fresh[0], k), int_=(k in 'in'), nn=(k == 'n')))
            m[the_atom(own)] = n
        phs.append(n)
    return t, phs, [subst(x, m, raw=True) for x in s.nexts]

def rec_val(s, j, t):
    k = s.kinds[j]
    if is_const(t) and cval(t) == 0:
        return s.inits[j]
    if k == 'a':
        return arr('rec', s, j, t)
    if k == 'b':
        return blit(_lit('brec', s, j, t))
    return ap(atom('rec', s, j, t, int_=(k in 'in'), nn=(k == 'n')))

# binder terms must not expose their own bound variables
def _fix_binder_fv():
    pass

_orig_atom = atom
def atom(op, *a, int_=True, nn=False):
    k = (op,) + a
    r = _atoms.get(k)
    if r is None:
        r = _orig_atom(op, *a, int_=int_, nn=nn)
        if op in ('sum', 'prod', 'first'):
            d = a[2]
            r.fv = r.fv - {_orig_atom('bv', d, int_=True, nn=True)}
            r.bd = max(r.bd, d)
    return r

_orig_lit = _lit
def _lit(op, *a):
    k = (op,) + a
    r = _lits.get(k)
    if r is None:
        r = _orig_lit(op, *a)
        if op == 'ex':
            d = a[2]
            r.fv = r.fv - {_orig_atom('bv', d, int_=True, nn=True)}
            r.bd = max(r.bd, d)
    return r

_orig_arr = arr
def arr(op, *a):
    k = (op,) + a
    r = _arrs.get(k)
    if r is None:
        r = _orig_arr(op, *a)
        if op == 'fold':
            d = a[3]
            r.fv = (a[0].fv | a[1].fv | (a[2].fv - {_orig_atom('bv', d, int_=True, nn=True), _orig_arr('abv', d)}))
            r.bd = max(r.bd, d)
        elif op == 'lam':
            d = a[1]
            r.fv = r.fv - {_orig_atom('bv', d, int_=True, nn=True)}
            r.bd = max(r.bd, d)
    return r

def a_lam(var, body):
    d, (b,) = close(var, body)
    return arr('lam', b, d)

# ----------------------------------------------------------------- substitution

class Reader:
    """how to resolve reads; replaced by the analysis with a fact-aware one"""
    read = None
    dec = None
RD = Reader()

def rd(A, idx):
    if RD.read:
        return RD.read(A, idx)
    return rd_raw(A, idx)

def elem_kind(A):
    """kind letter of the elements: i u b l (integers), d f (reals), ? unknown"""
    while True:
        if A.op in ('st', 'fold'):
            A = A.a[0]
        elif A.op == 'ite':
            k = elem_kind(A.a[1])
            if k != '?':
                return k
            A = A.a[2]
        elif A.op == 'rec':
            A = A.a[0].inits[A.a[1]]
        elif A.op in ('in', 'ph') and isinstance(A.a[0], str) and '#' in A.a[0]:
            return A.a[0].split('#')[-1]
        else:
            return '?'

def rd_raw(A, idx):
    k = elem_kind(A)
    return ap(atom('rd', A, idx, int_=k in 'iubl', nn=k in 'ub' and A.op == 'in'))

def bsubst(b, m):
    return subst(b, m)

# decides literals during a rebuild (None: unknown)
LIT_HOOK = [None]

def subst(x, m, raw=False):
    return _subst(x, m, {}, raw)

def _hit(x, m):
    f = x.fv
    if not f:
        return False
    for k in m:
        if k in f:
            return True
    return False

def _subst(x, m, memo, raw):
    if type(x) is tuple:
        return tuple(_subst(y, m, memo, raw) if hasattr(y, 'fv') or type(y) is tuple else y for y in x)
    if not hasattr(x, 'fv') or not _hit(x, m):
        return x
    r = memo.get(x)
    if r is not None:
        return r
    if type(x) is Poly:
        r = ZERO
        plain = {}
        for mo, c in x.t.items():
            if not any(_hit(a, m) for a, e in mo):
                plain[mo] = c
                continue
            y = num(c)
            for a, e in mo:
                v = _subst_atom(a, m, memo, raw)
                y = mul(y, ppow(v, e) if e > 0 else ppow(inv(v), -e))
            r = add(r, y)
        r = add(_mk(plain), r)
    elif type(x) is B:
        h = LIT_HOOK[0](x.l) if LIT_HOOK[0] is not None and not raw else None
        if h is not None:
            r = _subst(x.hi if h else x.lo, m, memo, raw)
        else:
            r = bite(_subst_lit(x.l, m, memo, raw), _subst(x.hi, m, memo, raw), _subst(x.lo, m, memo, raw))
    elif type(x) is Arr:
        r = _subst_arr(x, m, memo, raw)
    elif type(x) is Sys:
        r = _subst_sys(x, m, raw)
    else:
        raise TypeError(type(x))
    memo[x] = r
    return r

def _open_map(m, d):
    f = fresh()
    m2 = dict(m)
    m2[the_atom(bv(d))] = f
    return f, m2

def _subst_atom(a, m, memo, raw):
    if not _hit(a, m):
        return ap(a)
    r = memo.get(a)
    if r is not None:
        return r
    op = a.op
    if op in ('sym', 'bv'):
        r = m.get(a)
        if r is None:
            r = ap(a)
    elif op == 'ite':
        r = ite(_subst(a.a[0], m, memo, raw), _subst(a.a[1], m, memo, raw), _subst(a.a[2], m, memo, raw))
    elif op == 'idiv':
        r = idiv(_subst(a.a[0], m, memo, raw), _subst(a.a[1], m, memo, raw), None if raw else RD.dec)
    elif op == 'sdiv':
        r = sdiv(_subst(a.a[0], m, memo, raw), _subst(a.a[1], m, memo, raw))
    elif op == 'abs':
        r = absr(_subst(a.a[0], m, memo, raw))
    elif op == 'inv':
        r = inv(_subst(a.a[0], m, memo, raw))
    elif op == 'app':
        r = app(a.a[0], *[_subst(y, m, memo, raw) for y in a.a[1:]], int_=a.int)
    elif op in ('sum', 'prod', 'first'):
        n, b, d = a.a
        n2 = _subst(n, m, memo, raw) if n is not None else None
        f, m2 = _open_map(m, d)
        b2 = _subst(b, m2, {}, raw)
        r = {'sum': msum, 'prod': mprod, 'first': mfirst}[op](f, n2, b2)
    elif op == 'pow':
        r = mpow(_subst(a.a[0], m, memo, raw), _subst(a.a[1], m, memo, raw))
    elif op == 'rd':
        A = _subst(a.a[0], m, memo, raw)
        i = _subst(a.a[1], m, memo, raw)
        if raw:
            r = rd_raw(A, i) if A.op in ('ph', 'abv', 'in') else ap(atom('rd', A, i, int_=a.int, nn=a.nn))
            at = the_atom(r)
            if at.op == 'rd' and at is not a:
                at.int = at.int or a.int
                at.nn = at.nn or a.nn
        else:
            r = rd(A, i)
    elif op == 'rec':
        r = rec_val(_subst(a.a[0], m, memo, raw), a.a[1], _subst(a.a[2], m, memo, raw))
    elif op == 'base':
        r = ap(atom('base', a.a[0], _subst(a.a[1], m, memo, raw), nn=True))
    else:
        raise Unsupported('subst ' + op)
    memo[a] = r
    return r

def _subst_lit(l, m, memo, raw):
    if not _hit(l, m):
        return blit(l)
    op = l.op
    if op == 'ge':
        return ge0(_subst(l.a[0], m, memo, raw))
    if op == 'gt':
        return gt0(_subst(l.a[0], m, memo, raw))
    if op == 'eq':
        p = l.a[0]
        return eq0(_subst(p, m, memo, raw), not all_int(p))
    if op == 'ex':
        n, b, d = l.a
        f, m2 = _open_map(m, d)
        return mexists(f, _subst(n, m, memo, raw), _subst(b, m2, {}, raw))
    if op == 'bsym':
        return m[l]
    if op == 'brec':
        return rec_val(_subst(l.a[0], m, memo, raw), l.a[1], _subst(l.a[2], m, memo, raw))
    raise Unsupported('subst lit ' + op)

def _subst_arr(x, m, memo, raw):
    op = x.op
    if op in ('ph', 'abv'):
        return m.get(x, x)
    if op == 'st':
        return a_st(*[_subst(y, m, memo, raw) for y in x.a])
    if op == 'ite':
        return a_ite(*[_subst(y, m, memo, raw) for y in x.a])
    if op == 'fold':
        base, n, b, d = x.a
        f = fresh()
        _fresh[0] += 1
        ph = arr('ph', _fresh[0])
        m2 = dict(m)
        m2[the_atom(bv(d))] = f
        m2[arr('abv', d)] = ph
        return a_fold(_subst(base, m, memo, raw), f, _subst(n, m, memo, raw), ph, _subst(b, m2, {}, raw))
    if op == 'rec':
        return rec_val(_subst(x.a[0], m, memo, raw), x.a[1], _subst(x.a[2], m, memo, raw))
    if op == 'lam':
        b, d = x.a
        f, m2 = _open_map(m, d)
        return a_lam(f, _subst(b, m2, {}, raw))
    raise Unsupported('subst arr ' + op)

def _subst_sys(s, m, raw):
    d = s.d
    f = fresh()
    m2 = dict(m)
    m2[the_atom(bv(d))] = f
    phs = []
    for j, k in enumerate(s.kinds):
        p = rec_placeholder(k, d, j)
        _fresh[0] += 1
        if k == 'a':
            q = arr('ph', _fresh[0])
            m2[p] = q
        elif k == 'b':
            q = bsym(('ph', _fresh[0]))
            m2[p.l] = q
        else:
            q = ap(atom('sym', 'ph!%d' % _fresh[0], int_=(k in 'in'), nn=(k == 'n')))
            m2[the_atom(p)] = q
        phs.append(q)
    memo2 = {}
    nx = [_subst(y, m2, memo2, raw) for y in s.nexts]
    memo3 = {}
    ini = [_subst(y, m, memo3, raw) for y in s.inits]
    return mk_sys(s.kinds, ini, nx, f, phs)

# ----------------------------------------------------------------- printing
def show_atom(a):
    if a.op == 'sym':
        return str(a.a[0])
    if a.op == 'bv':
        return 'b%d' % a.a[0]
    if a.op == 'rd':
        if a.a[0].op == 'in':
            return '%s[%r]' % (a.a[0].a[0].split('#')[0], a.a[1])
        return 'read(%r, %r)' % (a.a[0], a.a[1])
    return '%s(%s)' % (a.op, ', '.join(map(repr, a.a)))

def show(p):
    if not p.t:
        return '0'
    out = []
    for m, c in p.t.items():
        s = '*'.join(('%r' % a) + ('^%d' % e if e != 1 else '') for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out)

def show_b(b):
    if b is T:
        return 'true'
    if b is F:
        return 'false'
    if b.hi is T and b.lo is F:
        return repr(b.l)
    if b.hi is F and b.lo is T:
        return '!%r' % b.l
    return '(%r ? %r : %r)' % (b.l, b.hi, b.lo)
