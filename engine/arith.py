"""Linear entailment over integer polynomials (Farkas combinations of the known facts and of
their pairwise products) and condition simplification under a context of facts."""
from fractions import Fraction
from math import gcd
from terms import *
import terms as TM

class Ctx:
    """facts: list of polynomials known >= 0; nes: polynomials known != 0; assumed literals"""
    def __init__(self):
        self.facts = ()
        self.key = frozenset()
        self.lits = {}
        self.bounds = {} # real polynomials up to scale and offset: (lowest, excluded, highest, excluded)
        self.cache = {}

    def child(self, conds):
        """context with the conditions (B) added"""
        es = set()
        for c in conds:
            es |= essential(c)
        es = {(l, s) for l, s in es if self.lits.get(l) is not s}
        if not es:
            return self
        r = Ctx()
        r.lits = dict(self.lits)
        r.bounds = self.bounds
        fs = list(self.facts)
        nes = []
        for l, s in sorted(es, key=lambda x: x[0].id):
            r.lits[l] = s
            p = l.a[0] if l.op in ('ge', 'eq', 'gt') else None
            if l.op == 'ge':
                fs.append(p if s else sub(neg(p), ONE))
            elif l.op == 'eq' and all_int(p):
                if s:
                    fs.append(p)
                    fs.append(neg(p))
                else:
                    nes.append(p)
            elif l.op == 'gt' or l.op == 'eq' and s:
                k, a, v = line(p)
                if k is not None:
                    if r.bounds is self.bounds:
                        r.bounds = dict(self.bounds)
                    lo, lx, hi, hx = r.bounds.get(k) or start(k)
                    if l.op == 'eq':
                        lo, lx, hi, hx = v, False, v, False
                    elif (a > 0) == s: # more than v, or at least
                        if lo is None or v > lo or v == lo and s:
                            lo, lx = v, s
                    elif hi is None or v < hi or v == hi and s:
                        hi, hx = v, s
                    r.bounds[k] = lo, lx, hi, hx
            elif l.op == 'ex' and l.a[0] is not None:
                n, b, d = l.a
                f = ap(atom('first', n, b, d, int_=True, nn=True))
                if s:
                    fs.append(sub(sub(n, ONE), f))
                    if b.n <= 12:
                        for l2, s2 in sorted(essential(subst(b, {the_atom(bv(d)): f}, raw=True)), key=lambda x: x[0].id):
                            if l2 not in r.lits:
                                r.lits[l2] = s2
                                if l2.op == 'ge':
                                    fs.append(l2.a[0] if s2 else sub(neg(l2.a[0]), ONE))
                else:
                    fs.append(sub(f, n))
                    fs.append(sub(n, f))
        for p in fs[len(self.facts):]:
            fs.extend(product_facts(p))
        r.facts = tuple(dict.fromkeys(fs))
        r.key = frozenset(r.lits.items())
        for p in nes:
            if r.prove(p):
                r.facts = r.facts + (sub(p, ONE),)
                r.cache = {}
            elif r.prove(neg(p)):
                r.facts = r.facts + (sub(neg(p), ONE),)
                r.cache = {}
        return r

    # ------------------------------------------------ p >= 0 ?
    def prove(self, p):
        if is_const(p):
            return cval(p) >= 0
        if nonneg_syn(p):
            return True
        r = self.cache.get(p)
        if r is None:
            r = self._prove(p)
            self.cache[p] = r
        return r

    def _prove(self, p, grp=None):
        facts = relevant(self.facts, p) if grp is None else grp
        # facts about the atoms themselves
        ats = set()
        for q in [p] + facts:
            for m in q.t:
                for a, e in m:
                    ats.add(a)
        base = list(facts)
        ats = sorted(ats, key=lambda a: a.id)
        todo = list(ats)
        seen = set()
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            if a.op == 'idiv':
                n, q = a.a
                A = ap(a)
                if self is not None and (is_const(q) and cval(q) > 0 or nonneg_syn(sub(q, ONE)) or self.cheap(sub(q, ONE)) or self.factor_pos(q)):
                    base.append(sub(n, mul(q, A)))
                    base.append(sub(add(mul(q, A), sub(q, ONE)), n))
                    base.append(A)
                    # n <= q*k - 1  gives  n/q <= k - 1
                    if not is_const(q):
                        for f in facts:
                            h = add(add(f, n), ONE)
                            if len(h.t) > 8 or len(h.t) < 1:
                                continue
                            try:
                                k, rem = pdiv(h, q)
                            except Unsupported:
                                continue
                            if k.t and nonneg_syn(neg(rem)):
                                u = sub(sub(k, ONE), A)
                                base.append(u)
                                for g in self.facts:
                                    if g not in base and relevant([g], u):
                                        base.append(g)
                    for z in (n, q):
                        for m in z.t:
                            for b, e in m:
                                todo.append(b)
            elif a.op == 'first' and a.a[0] is not None:
                base.append(sub(a.a[0], ap(a)))
        if farkas(base, p):
            return True
        # products of facts, to reach the non-linear monomials of the query
        want = {m for m in p.t if sum(e for a, e in m) >= 2}
        for q in base:
            want |= {m for m in q.t if sum(e for a, e in m) >= 2}
        if not want:
            return False
        pos = [f for f in base if len(f.t) <= 6]
        for a in ats:
            if a.nn and a.int:
                pos.append(ap(a))
        prods = []
        seenp = set(base)
        wv = set()
        for m in want:
            wv |= {a for a, e in m}
        wv0 = set(wv)
        for f in base:
            fa = {a for m in f.t for a, e in m}
            if fa & wv0:
                wv |= fa
        pos = [f for f in pos if any(a in wv for m in f.t for a, e in m)]
        pos = pos[:24]
        cand = []
        for i in range(len(pos)):
            for j in range(i, len(pos)):
                if len(pos[i].t) * len(pos[j].t) > 24:
                    continue
                try:
                    q = mul(pos[i], pos[j])
                except Unsupported:
                    continue
                if q in seenp or nonneg_syn(q):
                    continue
                seenp.add(q)
                cand.append(q)
        first = [q for q in cand if any(m in want for m in q.t)]
        prods = first[:80]
        if not prods:
            return False
        if farkas(base + prods, p):
            return True
        # products that cancel the further non-linear monomials of the first ones
        want = {m for q in prods for m in q.t if sum(e for a, e in m) >= 2}
        more = [q for q in cand if q not in first and any(m in want for m in q.t)]
        if not more:
            return False
        prods = (prods + more)[:80]
        return farkas(base + prods, p)

    def prove_false(self):
        """the facts contradict each other"""
        r = self.cache.get('false')
        if r is None:
            r = False
            for f in self.facts:
                if is_const(f):
                    if cval(f) < 0:
                        r = True
                        break
                    continue
            if not r:
                # split into connected groups through shared atoms
                done = set()
                for f in self.facts:
                    if f in done or is_const(f):
                        continue
                    grp = relevant(self.facts, f)
                    done.update(grp)
                    if self._prove(num(-1), grp):
                        r = True
                        break
            self.cache['false'] = r
        return r

    def factor_pos(self, q):
        """q >= 0 and some fact q*k >= 1"""
        if len(q.t) > 3 or is_const(q):
            return False
        r = self.cache.get(('fp', q))
        if r is None:
            r = False
            for f in self.facts:
                if len(f.t) < 3 or len(f.t) > 10:
                    continue
                h = add(f, ONE)
                for m, c in f.t.items():
                    if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].nn:
                        d = add(h, ap(m[0][0]))
                        k, rem = pdiv(d, q)
                        if k.t and not rem.t and self.cheap(q):
                            r = True
                            break
                if r:
                    break
            self.cache[('fp', q)] = r
        return r

    def cheap(self, p):
        return p in self.facts or any(nonneg_syn(sub(p, f)) for f in self.facts)

    # ------------------------------------------------ literals and conditions
    def lit(self, l):
        s = self.lits.get(l)
        if s is not None:
            return s
        if l.op == 'ge':
            p = l.a[0]
            if self.prove(p):
                return True
            if self.prove(sub(neg(p), ONE)):
                return False
        elif l.op == 'eq':
            p = l.a[0]
            if all_int(p):
                if self.prove(sub(p, ONE)) or self.prove(sub(neg(p), ONE)):
                    return False
                if self.prove(p) and self.prove(neg(p)):
                    return True
            elif self.bounds:
                k, a, v = line(p)
                b = self.bounds.get(k)
                if b is not None:
                    lo, lx, hi, hx = b
                    if lo is not None and (v < lo or v == lo and lx) or hi is not None and (v > hi or v == hi and hx):
                        return False
                    if lo == hi == v and lo is not None and not lx and not hx:
                        return True
        elif l.op == 'gt' and self.bounds:
            k, a, v = line(l.a[0])
            b = self.bounds.get(k)
            if b is not None:
                lo, lx, hi, hx = b
                if a < 0:
                    lo, lx, hi, hx, v = neg_(hi), hx, neg_(lo), lx, -v
                if lo is not None and (lo > v or lo == v and lx):
                    return True
                if hi is not None and hi <= v:
                    return False
        return None

    def simp(self, b):
        if b.l is None:
            return b
        for l in blits(b):
            if b.l is None:
                return b
            s = self.lit(l)
            if s is not None:
                b = cofactor(b, l, s)
            elif l.op == 'eq':
                d = self.digits(l)
                if d is not None:
                    b = bite(d, cofactor(b, l, True), cofactor(b, l, False))
        return b

    def digits(self, l):
        """q*s + r == 0 with -q < r < q  as  s == 0 and r == 0"""
        p = l.a[0]
        k = ('digits', l)
        r = self.cache.get(k)
        if r is None:
            r = False
            if all_int(p) and 2 <= len(p.t) <= 12:
                seen = []
                for m in p.t:
                    if sum(e for a, e in m) >= 2:
                        for a, e in m:
                            if a.nn and a.int and a not in seen and a.op in ('sym', 'app', 'rd'):
                                seen.append(a)
                for a in seen[:3]:
                    q = ap(a)
                    s, rest = pdiv(p, q)
                    if not s.t or not rest.t or a in rest.fv:
                        continue
                    if self.prove(sub(sub(q, ONE), rest)) and self.prove(add(sub(q, ONE), rest)):
                        r = band(self.simp(eq0(s)), self.simp(eq0(rest)))
                        break
            self.cache[k] = r
        return None if r is False else r

    def dec(self, b):
        b = self.simp(b)
        if b is T:
            return True
        if b is F:
            return False
        return None

    def dec_deep(self, b):
        """as dec, following the decision diagram with the facts of each branch"""
        b = self.simp(b)
        if b is T:
            return True
        if b is F:
            return False
        return None

    def simpP(self, p):
        """simplify the ite atoms of p"""
        for _ in range(20):
            for m in p.t:
                hit = False
                for a, e in m:
                    if a.op == 'ite':
                        d = self.simp(a.a[0])
                        if d is not a.a[0]:
                            x, y = split_ite(p, a)
                            p = x if d is T else y if d is F else ite(d, x, y)
                            hit = True
                            break
                if hit:
                    break
            else:
                return p
        return p

def neg_(x):
    return None if x is None else -x

_lines = {}
def line(p):
    """p is a times (k minus v), where k stands for a polynomial up to scale and offset"""
    r = _lines.get(p)
    if r is None:
        ms = [m for m in p.t if m != ()]
        if not ms or len(ms) > 8:
            r = None, 0, 0
        else:
            ms.sort(key=lambda m: tuple((x.id, e) for x, e in m))
            a = Fraction(p.t[ms[0]])
            r = tuple((m, Fraction(p.t[m]) / a) for m in ms), a, -Fraction(p.t.get((), 0)) / a
        _lines[p] = r
    return r

def start(k):
    if len(k) == 1 and all(x.op == 'abs' or x.nn for x, e in k[0][0]):
        return Fraction(0), False, None, False
    return None, False, None, False

def product_facts(p):
    """x*y >= 1 + ... with everything non-negative implies x >= 1 and y >= 1"""
    pos = [m for m, c in p.t.items() if c > 0]
    if len(pos) != 1 or p.t.get((), 0) >= 0:
        return []
    m0 = pos[0]
    if sum(e for a, e in m0) < 2:
        return []
    for m in p.t:
        for a, e in m:
            if not (a.nn and a.int and e > 0):
                return []
    return [sub(ap(a), ONE) for a, e in m0]

def relevant(facts, p):
    """facts connected to p through shared atoms"""
    vs = set()
    for m in p.t:
        for a, e in m:
            vs.add(a)
            if a.op == 'idiv':
                for q in a.a:
                    for mm in q.t:
                        for b, e in mm:
                            vs.add(b)
    out = []
    rest = list(facts)
    changed = True
    while changed:
        changed = False
        nr = []
        for f in rest:
            fa = {a for m in f.t for a, e in m}
            if fa & vs:
                out.append(f)
                vs |= fa
                changed = True
            else:
                nr.append(f)
        rest = nr
    return out

_fk = {}
def farkas(facts, q):
    """q = l0 + sum li*fi + sum mj*(non-negative monomials), all multipliers >= 0 ?"""
    key = (frozenset(facts), q)
    r = _fk.get(key)
    if r is None:
        r = _farkas(facts, q)
        if len(_fk) > 200000:
            _fk.clear()
        _fk[key] = r
    return r

def _farkas(facts, q):
    # columns: facts; plus e_m for each non-negative monomial m occurring (m >= 0), plus constant 1
    facts = [f for f in facts if not is_const(f)]
    rows = {}
    for f in [q] + facts:
        for m in f.t:
            if m not in rows:
                rows[m] = len(rows)
    if () not in rows:
        rows[()] = len(rows)
    # quick infeasibility: a monomial of q with negative coefficient must appear in a fact negatively
    cols = []
    for f in facts:
        cols.append({rows[m]: c for m, c in f.t.items()})
    for m, i in rows.items():
        if m == () or all(a.nn or e % 2 == 0 for a, e in m):
            cols.append({i: 1})
    b = [0] * len(rows)
    for m, c in q.t.items():
        b[rows[m]] = c
    return feasible(cols, b)

def feasible(cols, b):
    """exists x >= 0 with sum x_j col_j = b (phase-1 simplex, Bland's rule, exact)"""
    m = len(b)
    n = len(cols)
    # drop trivially: rows with b != 0 having no column of the right sign
    for i in range(m):
        if b[i] > 0 and not any(c.get(i, 0) > 0 for c in cols):
            return False
        if b[i] < 0 and not any(c.get(i, 0) < 0 for c in cols):
            return False
    # integer rows, each known up to a positive factor; the right hand side is column -1
    rows = []
    for i in range(m):
        s = -1 if b[i] < 0 else 1
        r = {}
        den = 1
        for j in range(n):
            v = cols[j].get(i, 0)
            if v:
                r[j] = v * s
                if isinstance(v, Fraction):
                    den = den * v.denominator // gcd(den, v.denominator)
        if b[i]:
            r[-1] = b[i] * s
            if isinstance(b[i], Fraction):
                den = den * b[i].denominator // gcd(den, b[i].denominator)
        if den != 1 or any(isinstance(v, Fraction) for v in r.values()):
            r = {k: int(v * den) for k, v in r.items()}
        rows.append(r)
    basis = [n + i for i in range(m)]
    z = {}
    for r in rows:
        for k, v in r.items():
            z[k] = z.get(k, 0) + v
    z = {k: v for k, v in z.items() if v}
    for it in range(400):
        if not z.get(-1):
            return True
        ent = None
        if it < 60:
            best = 0
            for k, v in z.items():
                if k >= 0 and (v > best or v == best and ent is not None and k < ent):
                    best = v
                    ent = k
        else:
            for k in sorted(z):
                if k >= 0 and z[k] > 0:
                    ent = k
                    break
        if ent is None:
            return False
        li = None
        bn = bd = 0
        for i, r in enumerate(rows):
            v = r.get(ent)
            if v is not None and v > 0:
                q = r.get(-1, 0)
                if li is not None:
                    d = q * bd - bn * v
                if li is None or d < 0 or (d == 0 and basis[i] < basis[li]):
                    bn, bd = q, v
                    li = i
        if li is None:
            return False
        pr = rows[li]
        pv = pr[ent]
        for i in range(m + 1):
            if i == li:
                continue
            r = rows[i] if i < m else z
            f = r.get(ent)
            if not f:
                continue
            g = gcd(pv, f)
            x = pv // g
            y = f // g
            if x != 1:
                r = {k: v * x for k, v in r.items()}
            for k, v in pr.items():
                nv = r.get(k, 0) - y * v
                if nv:
                    r[k] = nv
                else:
                    r.pop(k, None)
            if r:
                g = 0
                for v in r.values():
                    g = gcd(g, v)
                    if g == 1:
                        break
                if g > 1:
                    r = {k: v // g for k, v in r.items()}
            if i < m:
                rows[i] = r
            else:
                z = r
        basis[li] = ent
    return False
