"""Quantified conditions: an existential literal that holds is given a name for its witness, one that does not
hold is instantiated at the positions that the rest of the state talks about."""
from terms import *
import terms as TM
import interp as IP

ROUNDS = 4
MAXINST = 40

def fresh_w(k):
    return sym('w!%d' % k, True, True)

def atoms_of(x, seen, out):
    """all reads and first-position atoms in x, not below binders"""
    st = [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if type(y) is B:
            if y.l is not None:
                st += [y.hi, y.lo, y.l]
        elif type(y) is TM.Lit:
            if y.op == 'ex':
                st.append(y.a[0])
                if y.a[0] is None:
                    continue
            else:
                st += [z for z in y.a if isinstance(z, (Poly, B))]
        elif type(y) is Poly:
            for m in y.t:
                for a, e in m:
                    st.append(a)
        elif isinstance(y, TM.Atom):
            if y.op in ('rd', 'first'):
                out.append(y)
            if y.op in ('sum', 'prod', 'first'):
                if y.a[0] is not None:
                    st.append(y.a[0])
            else:
                st += [z for z in y.a if isinstance(z, (Poly, B))]

def reads_below(b):
    """reads of a body, including those below further binders"""
    out, seen, st = [], set(), [b]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if type(y) is B:
            if y.l is not None:
                st += [y.hi, y.lo, y.l]
        elif type(y) is TM.Lit:
            st += [z for z in y.a if isinstance(z, (Poly, B))]
        elif type(y) is Poly:
            st += [a for m in y.t for a, e in m]
        elif isinstance(y, TM.Atom):
            if y.op == 'rd':
                out.append(y)
            st += [z for z in y.a if isinstance(z, (Poly, B))]
    return out

def coef(p, va):
    """(coefficient of va, rest) if p is linear in va"""
    c, r = {}, {}
    for m, k in p.t.items():
        e = [x for a, x in m if a is va]
        if not e:
            if va in ap_fv(m):
                return None
            r[m] = k
        elif e[0] == 1:
            c[tuple(x for x in m if x[0] is not va)] = k
        else:
            return None
    c = TM._mk(c)
    if va in c.fv:
        return None
    return c, TM._mk(r)

def ap_fv(m):
    s = set()
    for a, e in m:
        s |= a.fv
    return s

def bvs(p):
    return [a for m in p.t for a, e in m if a.op == 'bv']

def quotients(t, c):
    """t divided by the leading monomial of c"""
    out = []
    for m, k in c.t.items():
        if not m:
            continue
        q, r = {}, {}
        for m2, k2 in t.t.items():
            d = dict(m2)
            ok = True
            for a, e in m:
                if d.get(a, 0) < e:
                    ok = False
                    break
                d[a] -= e
            if ok:
                mm = tuple((a, e) for a, e in m2 if d[a])
                q[tuple((a, d[a]) for a, e in mm)] = num_div(k2, k)
            else:
                r[m2] = k2
        if any(v is None for v in q.values()):
            continue
        out.append((TM._mk(q), TM._mk(r)))
    return out

def candidates(n, b, d, ground):
    va = TM.the_atom(bv(d))
    out = []
    pats = reads_below(b)
    for r in pats:
        p = r.a[1]
        cr = coef(p, va)
        if cr is None:
            continue
        c, rest = cr
        if c is ZERO:
            continue
        others = [a for a in bvs(rest) if a is not va]
        for g in ground:
            if g.op != 'rd' or g.a[0] is not r.a[0]:
                continue
            t = g.a[1]
            if not others:
                if is_const(c) and abs(cval(c)) == 1:
                    out.append(scale(sub(t, rest), cval(c)))
                else:
                    for q, rem in quotients(sub(t, rest), c):
                        out.append(q)
            else:
                if is_const(c) and abs(cval(c)) == 1:
                    # the other digit has the larger weight
                    for o in others:
                        co = coef(rest, o)
                        if co is None or is_const(co[0]):
                            continue
                        z = subst(co[1], {a: ZERO for a in bvs(co[1])}) if bvs(co[1]) else co[1]
                        for q, rem in quotients(sub(t, z), co[0]):
                            out.append(scale(rem, cval(c)))
                else:
                    z = subst(rest, {a: ZERO for a in others})
                    for q, rem in quotients(sub(t, z), c):
                        out.append(q)
    return out

class Quant:
    def __init__(self, D):
        self.D = D
        self.n = 0
        self.budget = 400

    def dead(self, base, lits, done, rounds):
        D = self.D
        self.budget -= 1
        if self.budget < 0:
            return False
        c = bands(blit(l) if s else bnot(blit(l)) for l, s in lits)
        if c is F or D.dead(base, lits, 1, quant=False):
            return True
        if rounds <= 0:
            return False
        cx = base.child([c])
        if cx.prove_false():
            return True
        out = []
        drop = []
        done = set(done)
        ground, seen = [], set()
        for l, s in lits:
            atoms_of(blit(l), seen, ground)
        k = 0
        while k < len(ground):
            a = ground[k]
            k += 1
        syms = set()
        for l, s in lits:
            if l.op == 'ge' and all_int(l.a[0]):
                for a in l.a[0].fv:
                    if isinstance(a, TM.Atom) and a.op == 'sym' and a.int:
                        syms.add(a)
        new = []
        for a in ground:
            if a.op == 'first' and a.a[0] is not None and ('f', a) not in done:
                done.add(('f', a))
                n, b, d = a.a
                fa = ap(a)
                e = blit(TM._lit('ex', n, b, d))
                hit = band(ge0(sub(sub(n, ONE), fa)), subst(b, {TM.the_atom(bv(d)): fa}, raw=True))
                new.append(bite(e, hit, eq0(sub(fa, n))))
        for l, s in lits:
            if l.op != 'ex' or l.a[0] is None:
                continue
            n, b, d = l.a
            if s:
                if l in done:
                    continue
                done.add(l)
                self.n += 1
                w = fresh_w(self.n)
                new.append(band(ge0(sub(sub(n, ONE), w)), subst(b, {TM.the_atom(bv(d)): w}, raw=True)))
                drop.append(l)
        def universal(n, b, d, tag):
            cs = candidates(n, b, d, ground)
            cs += [ap(a) for a in syms]
            cs += [ap(a) for a in ground if a.op == 'first']
            cs.append(ZERO)
            cs.append(sub(n, ONE))
            got = 0
            for x in dict.fromkeys(cs):
                if (tag, x) in done or got >= MAXINST:
                    continue
                if bvs(x):
                    continue
                done.add((tag, x))
                inr = cx.simp(band(ge0(x), ge0(sub(sub(n, ONE), x))))
                if inr is F:
                    continue
                got += 1
                new.append(bor(bnot(inr), bnot(subst(b, {TM.the_atom(bv(d)): x}, raw=True))))
        for l, s in lits:
            if l.op == 'ex' and l.a[0] is not None and not s:
                universal(l.a[0], l.a[1], l.a[2], l)
        for a in ground:
            if a.op == 'first' and a.a[0] is not None:
                universal(ap(a), a.a[1], a.a[2], ('first', a))
        if not new:
            return False
        keep = [(l, s) for l, s in lits if l not in drop]
        cur = bands(blit(l) if s else bnot(blit(l)) for l, s in keep)
        todo = []
        old = IP.AN.ctx
        IP.AN.ctx = cx
        TM.LIT_HOOK[0] = cx.lit
        try:
            for f in new:
                try:
                    f2 = cx.simp(D.renorm(f))
                except Unsupported:
                    f2 = cx.simp(f)
                if f2 is F:
                    return True
                if f2 is not T:
                    todo.append(f2)
        finally:
            TM.LIT_HOOK[0] = None
            IP.AN.ctx = old
        if not todo:
            return False
        todo.sort(key=lambda f: f.n)
        return self.split(base, cur, todo, done, rounds)

    def split(self, base, cur, todo, done, rounds):
        """every way to satisfy cur and todo is dead"""
        from decide import paths
        k = 0
        while k < len(todo):
            f = todo[k]
            k += 1
            try:
                cur = band(cur, f)
            except Unsupported:
                return False
            if cur is F:
                return True
            if cur.n > 600:
                return False
        ps = paths(cur, 24)
        if len(ps) > 24:
            from decide import live_paths
            ps = live_paths(cur, 24, 800, base)
            if ps is None:
                return False
        for p in ps:
            if not self.dead(base, p, done, rounds - 1):
                return False
        return True

def num_div(a, b):
    from fractions import Fraction
    x = Fraction(a) / Fraction(b)
    return int(x) if x.denominator == 1 else None
