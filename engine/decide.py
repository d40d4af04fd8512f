"""Runs the analysis of one probe and decides its obligations."""
import math
import random
import signal
import time
import zlib
from fractions import Fraction
from terms import *
import terms as TM
import interp as IP
import evalt as EV
import ring as RING
import quant as QU
from arith import Ctx, farkas as TM_farkas
from models import Models, AN_simp

# which property an automatic obligation belongs to (besides the property of the probe itself)
AUTO = {'bounds': 'C02', 'null': 'C02', 'div0': 'C02', 'div0i': 'C02', 'lifetime': 'C10', 'uaf': 'C10', 'free': 'C10', 'leak': 'C10',
        'exit': 'C27', 'abort': 'C27', 'assert': 'C27', 'terminate': 'C27', 'trap': 'C02'}

FORMW = 400

class Timeout(Exception):
    pass

def _alarm(*a):
    raise Timeout()

# ------------------------------------------------------------------ equalities
def eqmap(pc):
    """substitution making the equalities implied by pc explicit"""
    m = {}
    for l, s in sorted(essential(pc), key=lambda x: x[0].id):
        if l.op == 'ge' and not s:
            p = subst(l.a[0], m) if m else l.a[0]
            c0 = p.t.get((), 0)
            if c0 < 0 and len(p.t) > 1 and all_int(p):
                # a sum of non-negative terms below its smallest positive value
                for mo, c in p.t.items():
                    if mo and not (len(mo) == 1 and mo[0][0].nn and c >= -c0):
                        break
                else:
                    for mo in p.t:
                        if mo and mo[0][0].op == 'sym':
                            a = mo[0][0]
                            m = {k: subst(v, {a: ZERO}) for k, v in m.items()}
                            m[a] = ZERO
            continue
        if not (s and l.op == 'eq' and all_int(l.a[0])):
            continue
        p = subst(l.a[0], m) if m else l.a[0]
        if is_const(p):
            continue
        best = None
        for mo, c in p.t.items():
            if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == 'sym' and c in (1, -1):
                a = mo[0][0]
                rest = {k: v for k, v in p.t.items() if k != mo}
                r = scale(TM._mk(rest), -c)
                if a in r.fv:
                    continue
                if best is None or a.id > best[0].id:
                    best = (a, r)
        if best:
            a, r = best
            m = {k: subst(v, {a: r}) for k, v in m.items()}
            m[a] = r
    return m

def norm_eqs(pc, terms):
    """pc and terms with implied equalities substituted, to a fixpoint"""
    for _ in range(3):
        m = eqmap(pc)
        if not m:
            break
        extra = T
        pc2 = subst(pc, m)
        # keep the sign information of eliminated symbols
        for a, r in m.items():
            if a.nn:
                extra = band(extra, ge0(r))
        terms = [subst(x, m) for x in terms]
        pc = band(pc2, extra)
    return pc, terms

def inconsistent(cx):
    return cx.prove_false()

def paths(b, limit=96):
    """paths of a decision diagram to T, as literal lists"""
    out = []
    def go(x, acc):
        if len(out) > limit:
            return
        if x is F:
            return
        if x is T:
            out.append(list(acc))
            return
        acc.append((x.l, True))
        go(x.hi, acc)
        acc.pop()
        acc.append((x.l, False))
        go(x.lo, acc)
        acc.pop()
    go(b, [])
    return out

def live_paths(b, limit=96, steps=1500, base=None):
    """as paths, without those whose literals contradict each other"""
    out = []
    n = [0]
    def go(x, acc, cx=base):
        if x is F:
            return
        n[0] += 1
        if len(out) > limit or n[0] > steps:
            return
        if acc and acc[-1][0].op in ('gt', 'eq') and real_infeasible(acc, quick=True):
            return
        if x is T:
            out.append(list(acc))
            return
        for s, y in ((True, x.hi), (False, x.lo)):
            acc.append((x.l, s))
            c2 = cx
            if cx is not None and y is not F and x.l.op in ('eq', 'ge'):
                c2 = cx.child([blit(x.l) if s else bnot(blit(x.l))])
                if c2.prove_false():
                    acc.pop()
                    continue
            go(y, acc, c2)
            acc.pop()
    go(b, [])
    return None if len(out) > limit or n[0] > steps else out

def ne_infeasible(base, c, lits, depth=4):
    """integer disequalities, split by sign"""
    ne = [l.a[0] for l, s in lits if l.op == 'eq' and not s and all_int(l.a[0]) and len(l.a[0].t) <= 6]
    ne = [p for p in ne if not any(a.op in ('rd', 'rec', 'ite') for m in p.t for a, e in m)]
    if not ne or len(ne) > 8:
        return False
    ne.sort(key=lambda p: (len(p.t), p.id))
    def go(c, ne, d):
        for k, p in enumerate(ne[:d]):
            x = base.child([band(c, ge0(sub(p, ONE)))])
            y = base.child([band(c, ge0(sub(neg(p), ONE)))])
            fx, fy = x.prove_false(), y.prove_false()
            if fx and fy:
                return True
            if fx:
                c = band(c, ge0(sub(neg(p), ONE)))
            elif fy:
                c = band(c, ge0(sub(p, ONE)))
        if d > 1:
            for k, p in enumerate(ne[:d]):
                rest = ne[:k] + ne[k + 1:]
                if rest and go(band(c, ge0(sub(p, ONE))), rest, d - 2) and go(band(c, ge0(sub(neg(p), ONE))), rest, d - 2):
                    return True
        return False
    try:
        return go(c, ne, depth)
    except Unsupported:
        return False

def rsub(p, mp):
    """p with whole atoms replaced, also inside magnitudes"""
    r = ZERO
    for m, c in p.t.items():
        y = num(c)
        for a, e in m:
            v = mp.get(a)
            if v is None:
                v = ap(a)
                if a.op == 'abs':
                    w = rsub(a.a[0], mp)
                    if w is not a.a[0]:
                        v = absr(w)
            y = mul(y, ppow(v, e) if e > 0 else ppow(inv(v), -e))
        r = add(r, y)
    return r

def real_infeasible(lits, quick=False):
    """the order and equality literals contradict each other over the real numbers"""
    strict, weak, ats = [], [], {}
    for l, s in lits:
        if l.op == 'gt':
            p = l.a[0]
            (strict if s else weak).append(p if s else neg(p))
        elif l.op == 'eq' and s:
            weak += [l.a[0], neg(l.a[0])]
        elif l.op == 'ge':
            weak.append(l.a[0] if s else sub(neg(l.a[0]), ONE))
    if not any(l.op == 'gt' or l.op == 'eq' and s and not all_int(l.a[0]) for l, s in lits):
        return False
    # disequalities split once each
    eqs = [l.a[0] for l, s in lits if l.op == 'eq' and s]
    ne = [l.a[0] for l, s in lits if l.op == 'eq' and not s]
    for a in {a for p in strict + weak + ne for m in p.t for a, e in m if a.op == 'app' and a.a[0] == 'sqrt'}:
        x = a.a[1]
        if x in ne or neg(x) in ne or x in strict or (all(c > 0 and all(e % 2 == 0 for b, e in m) for m, c in x.t.items()) and
                any(all(ap(b) in ne or neg(ap(b)) in ne for b, e in m) for m in x.t)):
            strict.append(ap(a))
        else:
            weak.append(ap(a))
    for p in strict + weak + ne:
        for m in p.t:
            for a, e in m:
                if a.op == 'abs':
                    ats[a] = 1
    todo = list(ats)
    while todo:
        a = todo.pop()
        for m in a.a[0].t:
            for b, e in m:
                if b.op == 'abs' and b not in ats:
                    ats[b] = 1
                    todo.append(b)
    ats = sorted(ats, key=lambda a: -a.id)
    eps = sym('eps', False, True)
    def close_(strict, weak):
        for q, st in [(q, True) for q in strict] + [(q, False) for q in weak]:
            if all(m == () for m in q.t) and (TM.cval(q) < 0 or st and not q.t):
                return True
        if not strict:
            return any(m and () in p.t for p in weak for m in p.t) and TM_farkas(weak, num(-1))
        fs = [sub(p, eps) for p in strict] + weak
        for m in {m for p in fs for m in p.t}:
            pass
        return TM_farkas(fs, neg(eps))
    def go(strict, weak, ne, k):
        if close_(strict, weak):
            return True
        if k < len(ats):
            a = ats[k]
            for sg in (1, -1):
                x = a.a[0] if sg > 0 else neg(a.a[0])
                mp = {a: x}
                if not go([rsub(p, mp) for p in strict], [rsub(p, mp) for p in weak] + [x], [rsub(p, mp) for p in ne], k + 1):
                    return False
            return True
        if ne:
            p = ne[0]
            return go(strict + [p], weak, ne[1:], k) and go(strict + [neg(p)], weak, ne[1:], k)
        return False
    try:
        for k in range(len(eqs)):
            p = eqs[k]
            for m, c in sorted(p.t.items(), key=lambda x: -max([a.id for a, e in x[0]], default=0)):
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('rd', 'abs', 'sym', 'sum', 'app'):
                    a = m[0][0]
                    r = scale(sub(scale(ap(a), c), p), Fraction(1) / c)
                    if a in r.fv or any(a in b.fv for q in r.t for b, e in q):
                        continue
                    mp = {a: r}
                    strict, weak, ne, eqs = [[rsub(q, mp) for q in z] for z in (strict, weak, ne, eqs)]
                    break
        if any(not p.t for p in ne):
            return True
        live = {b for p in strict + weak + ne for m in p.t for b, e in m if b.op == 'abs'}
        sides = []
        for q in {m for p in strict + weak + ne for m in p.t}:
            if q and all(e % 2 == 0 for a, e in q):
                sides.append(TM._mk({q: 1}))
        for a in live:
            sides += [sub(ap(a), a.a[0]), add(ap(a), a.a[0])]
        if close_(strict, weak + sides):
            return True
        if quick:
            return False
        ne = [p for p in ne if any(m in q.t for q in strict + weak for m in p.t)]
        ats = [a for a in ats if a in live and not (len(a.a[0].t) == 1 and not any(a.a[0].t.keys() & q.t.keys() for q in strict + weak + ne))]
        if len(ats) > 6 or len(ne) > 4:
            return False
        return go(strict, weak, ne, 0)
    except Unsupported:
        return False

def lift_apps(b, limit=60):
    """b with case distinctions inside arguments of uninterpreted functions made outside"""
    def arms(p):
        for m in p.t:
            for a, e in m:
                if a.op == 'app':
                    for y in a.a[1:]:
                        i = TM.find_ite(y)
                        if i is not None:
                            out = []
                            for k in (0, 1):
                                v = TM.app(a.a[0], *[TM.split_ite(z, i)[k] for z in a.a[1:]], int_=a.int)
                                out.append(rsub(p, {a: v}))
                            return i.a[0], out[0], out[1]
        return None
    for _ in range(limit):
        for l in TM.blits(b):
            if l.op not in ('eq', 'gt', 'ge'):
                continue
            r = arms(l.a[0])
            if r is None:
                continue
            def mk(p):
                if l.op == 'ge':
                    return ge0(p)
                if l.op == 'gt':
                    return gt0(p)
                return eq0(p, True)
            c = bite(r[0], mk(r[1]), mk(r[2]))
            hi, lo = TM.cofactor(b, l, True), TM.cofactor(b, l, False)
            b = bor(band(c, hi), band(bnot(c), lo))
            break
        else:
            return b
    return b

class Decider:
    def __init__(self, seed=1, tries=160, smax=3):
        self.seed = seed
        self.tries = tries
        self.smax = smax

    def prove(self, pc, cond, binders):
        if cond is T or pc is F:
            return True
        base = Ctx()
        facts = []
        for t, n in binders:
            facts.append(ge0(sub(sub(n, ONE), t)))
        allf = bands(facts + [pc])
        if allf is F:
            return True
        try:
            pc2, (c2,) = norm_eqs(allf, [cond])
        except Unsupported:
            pc2, c2 = allf, cond
        if c2 is T or pc2 is F:
            return True
        cx = base.child([pc2])
        IP.AN.ctx = cx
        try:
            c2 = self.renorm(c2)
        except Unsupported:
            pass
        c2 = cx.simp(c2)
        if c2 is not T:
            c3 = lift_apps(c2)
            if c3 is not c2:
                c2 = cx.simp(c3)
        if c2 is T:
            return True
        c2 = self.order(pc2, c2)
        if c2 is T:
            return True
        bad = band(pc2, bnot(c2))
        if bad is F:
            return True
        ps = paths(bad)
        if len(ps) > 96:
            ps = live_paths(bad)
            if ps is None:
                ps = live_paths(bad, 200, 3000, base)
            if ps is None:
                return False
        return all(self.dead(base, p, 2) for p in ps)

    def order(self, pc, c):
        """the comparisons of real numbers in c that the ones in pc settle"""
        ls = [l for l in TM.blits(c) if l.op in ('gt', 'eq') and not TM.all_int(l.a[0])]
        if not ls or len(ls) > 12:
            return c
        known = [(l, s) for l, s in TM.essential(pc) if l.op == 'gt' or l.op == 'eq' and not TM.all_int(l.a[0])]
        if not known:
            return c
        for l in ls:
            at = {a for m in l.a[0].t for a, e in m}
            near = [(k, s) for k, s in known if any(a in at for m in k.a[0].t for a, e in m)]
            if not near or len(near) > 12:
                continue
            for s in (True, False):
                if real_infeasible(near + [(l, s)], True):
                    c = TM.cofactor(c, l, not s)
                    break
        return c

    def dead(self, base, p, depth, quant=True):
        """no state satisfies these literals"""
        c = T
        for l, s in p:
            c = band(c, blit(l) if s else bnot(blit(l)))
        if c is F:
            return True
        k = base.child([c])
        if k.prove_false() or real_infeasible(p) or ne_infeasible(base, c, p) or RING.dead(p):
            return True
        # the equalities of this path
        ges = [l.a[0] if s else sub(neg(l.a[0]), ONE) for l, s in p if l.op == 'ge']
        have = set(ges)
        for g in ges:
            if neg(g) in have:
                c2 = band(c, eq0(g))
                if c2 is F:
                    return True
                c = c2
        try:
            q, _ = norm_eqs(c, [])
            if q is F or base.child([q]).prove_false():
                return True
        except Unsupported:
            q = c
        if depth <= 0:
            return False
        # what the elements are, in the states of this path
        for x in ((q, c) if q is not c else (c,)):
            ps = paths(x, 2)
            if len(ps) != 1:
                continue
            data = [(l, s) for l, s in ps[0] if l.op in ('eq', 'gt', 'ge') and any(a.op in ('rd', 'ite', 'idiv', 'sum', 'prod', 'app') for m in l.a[0].t for a, e in m)]
            for l, s in data[-4:]:
                rest = bands(blit(l2) if s2 else bnot(blit(l2)) for l2, s2 in ps[0] if l2 is not l)
                k2 = base.child([rest])
                old = IP.AN.ctx
                IP.AN.ctx = k2
                TM.LIT_HOOK[0] = k2.lit
                try:
                    b = self.renorm(blit(l))
                except Unsupported:
                    continue
                finally:
                    TM.LIT_HOOK[0] = None
                    IP.AN.ctx = old
                b = k2.simp(b)
                if not s:
                    b = bnot(b)
                if b is F:
                    return True
                if b is T or b is (blit(l) if s else bnot(blit(l))):
                    continue
                sub_ = paths(band(rest, b), 12)
                if len(sub_) <= 12 and all(self.dead(base, p2, depth - 1, False) for p2 in sub_):
                    return True
        if quant and any(l.op == 'ex' or has_first(l) for l, s in p):
            try:
                return QU.Quant(self).dead(base, p, set(), QU.ROUNDS)
            except Unsupported:
                return False
        return False

    def renorm(self, c):
        """rebuild under the current context so that reads and conditions are simplified"""
        vs = [x for x in c.fv if isinstance(x, TM.Atom) and x.op == 'sym']
        if not vs:
            return c
        return subst(c, {x: ap(x) for x in vs})

    # ------------------------------------------------------------ witnesses
    def refute(self, pc, cond, binders, pair=None):
        rnd = random.Random(self.seed * 7919 + 13)
        fv = set(pc.fv) | set(cond.fv)
        for t, n in binders:
            fv |= n.fv
        if pair:
            for x in pair:
                fv |= x.fv
        bset = {TM.the_atom(t) for t, n in binders}
        sizes = sorted([a for a in fv if isinstance(a, TM.Atom) and a.op == 'sym' and isinstance(a.a[0], str) and '#' not in a.a[0] and a not in bset], key=lambda a: a.id)
        if any(isinstance(a.a[0], str) and ('!' in a.a[0] or '@' in a.a[0]) for a in sizes) or any(isinstance(a, TM.Arr) for a in fv):
            return None
        names = [a.a[0] for a in sizes]
        tried = 0
        cands = []
        k = len(names)
        S = self.smax
        if (S + 1) ** k <= 5000:
            import itertools
            allv = list(itertools.product(range(S + 1), repeat=k))
            rnd.shuffle(allv)
            cands = allv
        else:
            cands = [tuple(rnd.randint(0, S) for _ in names) for _ in range(20000)]
        # values next to the constants that sizes are compared with
        edge = edges(pc, cond, sizes, S)
        if edge:
            for a, p in eqmap(pc).items():
                if a in edge and len(p.t) == 1:
                    ((mo, k),) = p.t.items()
                    if k == 1 and len(mo) == 1 and mo[0][1] == 1:
                        edge.setdefault(mo[0][0], set()).update(edge[a])
            def pool(a, lim):
                e = edge.get(a, set())
                return sorted(set(range(S + 1)) | e | set(range(max([y for y in e if y <= lim] + [0]))))
            det = fixed(pc, sizes)
            for lim in (9, 0):
                pools = [[0] if a in det else pool(a, lim) for a in sizes]
                tot = 1
                for x in pools:
                    tot *= len(x)
                if tot <= 1000:
                    break
            if tot <= 4000:
                import itertools
                cands = list(itertools.product(*pools))
                rnd.shuffle(cands)
            else:
                cands = [tuple(rnd.choice(x) for x in pools) if o & 1 else c for o, c in enumerate(cands)]
        cands = tied(pc, sizes, cands)
        t0 = time.time()
        good = 0
        # with many parameters the cases that matter are rare
        most = (self.tries << max(0, min(4, k - 4))) * (2 if edge else 1)
        spare = 3 * most
        cheap = {}
        hints = data_hints(pc, cond)
        for rnd_no in range(400):
            progressed = False
            for sv in cands:
                if time.time() - t0 > 12:
                    return None
                key = sv
                if cheap.get(key) is False:
                    continue
                mode = min(rnd.randint(0, 7), 6)
                seed = rnd.randint(0, 1 << 30)
                v = EV.Val(dict(zip(names, sv)), datafn(seed, mode, hints))
                ok = False
                try:
                    ok = True
                    if not v.B(pc) and not binders:
                        ok = False
                    if ok:
                        for t, n in binders:
                            nn = v.N(n)
                            if nn <= 0:
                                ok = False
                                break
                            v.env[TM.the_atom(t)] = rnd.randrange(nn)
                        if ok and binders and not v.B(pc):
                            ok = False
                    if not ok:
                        if not pc_data(pc) and not binders:
                            cheap[key] = False
                        continue
                    good += 1
                    progressed = True
                    if pair is not None and isinstance(pair[0], Poly):
                        undef = False
                        try:
                            x = v.P(pair[0])
                            y = v.P(pair[1])
                        except EV.Undefined:
                            undef = True
                        if undef:
                            return self.witness(v, sv, names, binders, 'an uninitialised value is used')
                        d = abs(x - y)
                        if d != 0 and d > 1e-6 * max(1.0, abs(float(x)), abs(float(y))):
                            return self.witness(v, sv, names, binders, 'got %s, expected %s' % (sv_(x), sv_(y)))
                        elif d != 0 and not isinstance(d, float):
                            return self.witness(v, sv, names, binders, 'got %s, expected %s' % (sv_(x), sv_(y)))
                    else:
                        if not v.B(cond):
                            return self.witness(v, sv, names, binders, '')
                except EV.Skip:
                    # it said nothing: another one takes its place
                    if ok and spare > 0:
                        spare -= 1
                        good -= 1
                except EV.Undefined:
                    if not self.undef_in_pc(v, pc):
                        return self.witness(v, sv, names, binders, 'an uninitialised value is used')
                except RecursionError:
                    pass
                tried += 1
                if good >= most or (good >= self.tries and time.time() - t0 > 4):
                    return None
            if not progressed and rnd_no > max(8, 240 // max(1, len(cands))):
                return None
            if len(cands) > 1000 and good == 0 and rnd_no > 2:
                return None
        return None

    def undef_in_pc(self, v, pc):
        try:
            return not v.B(pc)
        except (EV.Undefined, EV.Skip):
            return True

    def witness(self, v, sv, names, binders, msg):
        w = ', '.join('%s=%s' % (n, x) for n, x in zip(names, sv))
        for t, n in binders:
            w += ', iteration %s=%s' % (t, v.env.get(TM.the_atom(t)))
        ext = ', '.join('%s=%s' % (k, sv_(x)) for k, x in sorted(v.syms.items(), key=str) if k not in names)
        if ext:
            w += (', ' if w else '') + ext
        if v.data.log:
            w += '; ' + ', '.join('%s[%d]=%s' % (k[0].split('#')[0], k[1], sv_(x)) for k, x in list(v.data.log.items())[:12])
        return (w + (': ' + msg if msg else ''))[:600]

def sv_(x):
    if isinstance(x, float):
        return '%.10g' % x
    return str(x)

def has_first(l):
    out = []
    QU.atoms_of(blit(l), set(), out)
    return any(a.op == 'first' for a in out)

def data_hints(pc, cond):
    """input name -> values that conditions single out"""
    out = {}
    seen = set()
    st = [pc, cond]
    while st and len(seen) < 4000:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, B):
            if x.l is not None:
                st += [x.hi, x.lo, x.l]
        elif isinstance(x, TM.Lit):
            if x.op in ('ge', 'eq', 'gt'):
                p = x.a[0]
                c = p.t.get((), 0)
                if len(p.t) == 2 and c:
                    for m, v in p.t.items():
                        if len(m) == 1 and m[0][1] == 1:
                            a = m[0][0]
                            n = None
                            if a.op == 'abs' and isinstance(a.a[0], Poly) and len(a.a[0].t) == 1:
                                # the magnitude of an input
                                (q, w), = a.a[0].t.items()
                                if len(q) == 1 and q[0][1] == 1:
                                    a, v = q[0][0], v * abs(w)
                            if a.op == 'sym' and isinstance(a.a[0], str) and '#' in a.a[0]:
                                n = a.a[0]
                            elif a.op == 'rd' and getattr(a.a[0], 'op', '') == 'in':
                                n = a.a[0].a[0]
                            if n is not None:
                                e = Fraction(-c) / v
                                e = int(e) if e.denominator == 1 else e
                                o = out.setdefault(n.split('#')[0] if a.op == 'sym' else n, [])
                                if e not in o and len(o) < 8:
                                    o.append(e)
    # and what lies between these
    for n, o in out.items():
        q = sorted(set(o))
        more = [Fraction(x + y, 2) for x, y in zip(q, q[1:])] + [q[0] - 1, q[-1] + 1]
        for e in more:
            e = int(e) if isinstance(e, int) or e.denominator == 1 else e
            if e not in o:
                o.append(e)
    return out

def edges(pc, cond, sizes, S):
    """size -> values at the edge of a comparison with a constant, beyond the small ones"""
    want = set(sizes)
    out = {}
    anysize = set()
    seen = set()
    st = [pc, cond]
    while st and len(seen) < 4000:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, B):
            if x.l is not None:
                st += [x.hi, x.lo, x.l]
        elif isinstance(x, TM.Lit):
            if x.op in ('ge', 'eq'):
                p = x.a[0]
                c = p.t.get((), 0)
                for m, v in p.t.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] in want:
                        e = -c / v
                        for d in (-1, 0, 1):
                            y = math.floor(e) + d
                            if S < y <= 70:
                                out.setdefault(m[0][0], set()).add(y)
                    elif len(m) == 1 and len(p.t) == 2 and m[0][1] == 1 and c < 0 and v == 1 and getattr(m[0][0], 'op', '') == 'bv':
                        # an index compared with a constant: sizes that let it get there
                        y = -c + 1
                        if y == int(y) and S < y <= 20:
                            anysize |= {int(y), int(y) + 1}
            st += [y for y in x.a if isinstance(y, (Poly, B, TM.Arr, TM.Sys))]
        elif isinstance(x, Poly):
            for m in x.t:
                for a, e in m:
                    if isinstance(a, TM.Atom):
                        st += [y for y in a.a if isinstance(y, (Poly, B, TM.Arr, TM.Sys))]
        elif isinstance(x, TM.Arr):
            st += [y for y in x.a if isinstance(y, (Poly, B, TM.Arr, TM.Sys))]
        elif isinstance(x, TM.Sys):
            st += list(x.inits) + list(x.nexts)
    if len(anysize) <= 4 and len(sizes) <= 4:
        for a in sizes:
            for y in anysize:
                out.setdefault(a, set()).add(y)
    return out

def fixed(pc, sizes):
    """the sizes that the assumptions determine, in terms of the others"""
    m = {a: p for a, p in eqmap(pc).items() if a in set(sizes)}
    pos = set(sizes)
    return {a: p for a, p in m.items() if all(x in pos and x not in m for mo in p.t for x, e in mo)}

def tied(pc, sizes, cands):
    """candidates with the sizes that the assumptions determine recomputed"""
    pos = {a: i for i, a in enumerate(sizes)}
    m = fixed(pc, sizes)
    if not m:
        return cands
    out, seen = [], set()
    for c in cands:
        c = list(c)
        for a, p in m.items():
            y = 0
            for mo, k in p.t.items():
                for x, e in mo:
                    k = k * c[pos[x]] ** e
                y += k
            if y != int(y) or y < 0 and a.nn:
                break
            c[pos[a]] = int(y)
        else:
            c = tuple(c)
            if c not in seen:
                seen.add(c)
                out.append(c)
    return out or cands

def pc_data(pc):
    """the condition depends on element values"""
    seen = set()
    st = [pc]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, B):
            if x.l is None:
                continue
            st += [x.hi, x.lo, x.l]
        elif isinstance(x, TM.Lit):
            if x.op in ('bsym', 'brec', 'ex', 'gt'):
                return True
            st += [y for y in x.a if isinstance(y, (Poly, B))]
        elif isinstance(x, Poly):
            st += [a for m in x.t for a, e in m]
        elif isinstance(x, TM.Atom):
            if x.op == 'sym':
                if isinstance(x.a[0], str) and '#' in x.a[0]:
                    return True
            elif x.op in ('ite', 'idiv', 'sdiv', 'abs'):
                st += [y for y in x.a if isinstance(y, (Poly, B))]
            else:
                return True
    return False

class datafn:
    def __init__(self, seed, mode, hints={}):
        self.seed, self.mode, self.hints = seed, mode, hints
        self.log = {}
    def __call__(self, name, kind, i):
        k = (name, i)
        v = self.log.get(k)
        if v is None:
            v = self.gen(name, kind, i)
            self.log[k] = v
        return v
    def gen(self, name, kind, i):
        h = zlib.crc32(('%s|%d|%d' % (name, i, self.seed)).encode())
        h = (h * 2654435761 + 12345) & 0xffffffff
        h ^= h >> 15
        m = self.mode
        if self.hints:
            o = self.hints.get(name) or self.hints.get(name.split('#')[0])
            if o and (h >> 5) & 1:
                v = o[(h >> 6) % len(o)]
                if kind in ('d', 'f') or not isinstance(v, Fraction) and (v >= 0 or kind not in ('n', 'u')):
                    return v
        if name.startswith('setting '):
            return (Fraction(1, 1000000), Fraction(1, 8), Fraction(1, 2), Fraction(1, 64))[h % 4]
        if kind == 'b':
            return h & 1
        if kind in ('n', 'u'):
            return h % 4 if m != 0 else h % 7
        if kind in ('i', 'l'):
            if m in (1, 4):
                return (h % 4) - 1
            if m == 2:
                return h % 2
            if m == 3:
                return 0 if h % 3 else 1 + h % 5
            if m == 6:
                return 0 if h % 7 else 1 + (h >> 4) % 5
            return (h % 19) - 9
        if m == 6:
            # almost everything is zero
            return 0 if h % 7 else Fraction((h >> 4) % 9 - 4, 2)
        if m == 1:
            return (h % 4) - 1
        if m == 2:
            return h % 2
        if m == 3:
            return 0 if h % 3 else Fraction((h >> 3) % 9 - 4, 2)
        if m == 4:
            v = Fraction(1 + (h >> 2) % 40, 8)
            return v if v.denominator > 1 else int(v)
        if m == 5 and kind == 'd':
            return Fraction((h % 81) - 40, 4) + Fraction((h >> 8) % 1024, 1 << 30)
        v = Fraction((h % 81) - 40, 4)
        return v if v.denominator > 1 else int(v)

# ------------------------------------------------------------------ one probe

POSITION = ('i', 'j', 'ei', 'ej', 'idx', 'text length', 'precision')

def pinnings(names, hard, assumed, seed, want=12):
    """small values for the sizes the work depends on, such that the assumptions can hold"""
    rnd = random.Random(zlib.crc32(('%d|%s' % (seed, ' '.join(names))).encode()))
    conds = [c for c in assumed if not pc_data(c)]
    found = {}
    t0 = time.time()
    for r in range(20000):
        if len(found) >= 120 or time.time() - t0 > 2:
            break
        k = r % 4
        if k == 0:
            vs = tuple(rnd.choice((0, 1, 2, 3, 3, 4)) for _ in names)
        elif k == 1:
            vs = tuple(rnd.choice((0, 1, 1, 2)) for _ in names)
        else:
            pool = [rnd.choice((0, 1, 2, 3, 4, 5)) for _ in range(rnd.choice((1, 2, 3)))]
            vs = tuple(rnd.choice(pool) for _ in names)
        env = dict(zip(names, vs))
        key = tuple(env[x] for x in hard)
        if key in found:
            continue
        v = EV.Val(env, datafn(1, 0))
        try:
            if not all(v.B(c) for c in conds):
                continue
        except (EV.Skip, EV.Undefined):
            pass
        found[key] = sum(key)
    keys = sorted(found, key=lambda x: (-found[x], x))
    fit = [x for x in keys if max(x) <= 4] or keys
    sel = fit[:want // 2] + [x for x in fit if len(set(x)) == len(x)][:2] + fit[-2:]
    rest = [x for x in keys if x not in sel]
    rnd.shuffle(rest)
    out = []
    for x in sel + rest:
        if x not in out:
            out.append(x)
    # the large, the small and the others in turn
    n = min(len(out), want)
    return [dict(zip(hard, x)) for x in out[:n]]

def run_probe(*a, **k):
    res = run_sized(*a, **k)
    for x in ('hard', 'assumed'):
        res.pop(x, None)
    return res

def run_sized(mod, name, colmajor=False, limit=60, seed=1, tries=160, smax=3, pin=25, force=False):
    """The analysis with symbolic sizes; where that leaves something undecided also its instances with
    small sizes (the elements stay symbolic), of which only refuted obligations are reported."""
    res = run_once(mod, name, colmajor, limit, seed, tries, smax)
    if res.get('history') and not any(o['status'] == 'refuted' for o in res['obs']):
        # what the operation leaves behind in the program: once more, after an earlier use with other operands
        r = run_once(mod, name, colmajor, limit, seed, tries, smax, warm=True)
        if r['status'] != 'ok':
            res['status'], res['reason'] = r['status'], r['reason']
        for o in r['obs']:
            o['note'] = o['note'] + ' (when used again)'
        res['obs'] += r['obs']
        res['t'] = res.get('t', 0) + r.get('t', 0)
    if not force and (pin <= 0 or any(o['status'] == 'refuted' for o in res['obs']) or
                      res['status'] == 'ok' and all(o['status'] == 'proved' for o in res['obs'])):
        return res
    names = res['sizes']
    hard = [n for n in names if n not in POSITION and (res['status'] != 'ok' or n in res['hard'])]
    if not hard:
        return res
    t0 = time.time()
    n = 0
    for pins in pinnings(names, hard, res['assumed'], seed):
        left = pin - (time.time() - t0)
        if left < 1:
            break
        r = run_once(mod, name, colmajor, max(1, min(left, 8)), seed, 40, 2, pins)
        n += 1
        bad = [o for o in r['obs'] if o['status'] == 'refuted']
        for o in bad:
            o['witness'] = ('with ' + ', '.join('%s=%d' % (x, pins[x]) for x in hard) + (': ' + o['witness'] if o['witness'] else ''))[:600]
            o['pinned'] = True
        if bad:
            res['obs'] += bad
            if res['status'] != 'ok':
                res['status'] = 'partial'
            if not force:
                break
    res['pinned'] = n
    res['t'] = res.get('t', 0) + time.time() - t0
    return res

def written(I, st):
    """the objects of the program, not of the probe, that differ from their first content"""
    out = []
    for k, r in st.mem.items():
        g = I.global0.get(k)
        if g is None or r is g or I.m.globals[k[1:]].get('const') or 'init' not in I.m.globals[k[1:]]:
            continue
        if r.kind == 'cells' and set(r.cells) == set(g.cells):
            if all(v[0] == g.cells[o][0] and (v[1] is g.cells[o][1] or I.force(v[1], st) is I.force(g.cells[o][1], st)) for o, v in r.cells.items()):
                continue
        out.append(k)
    return out

def rooted(I, st):
    """the storage that objects of the program refer to"""
    todo = [k for k in st.mem if k in I.global0]
    seen = set(todo)
    while todo:
        r = st.mem.get(todo.pop())
        if r is None:
            continue
        vals = [v[1] for v in r.cells.values()] if r.kind == 'cells' else []
        for v in vals:
            if not isinstance(v, Poly):
                continue
            stk, vis = [v], set()
            while stk:
                x = stk.pop()
                if x in vis:
                    continue
                vis.add(x)
                if isinstance(x, Poly):
                    for m in x.t:
                        for a, e in m:
                            if a.op == 'base':
                                if a.a[0] not in seen:
                                    seen.add(a.a[0])
                                    todo.append(a.a[0])
                            else:
                                stk += [y for y in a.a if isinstance(y, Poly)]
    return seen

def run_once(mod, name, colmajor=False, limit=60, seed=1, tries=160, smax=3, pins=None, warm=False):
    """returns dict(name, status, obligations=[...], stats)"""
    t0 = time.time()
    res = {'probe': name, 'status': 'ok', 'obs': [], 'reason': '', 'loops': 0, 'funcs': [], 'colmajor': colmajor}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    I = IP.Interp(mod, Models(mod, colmajor=colmajor))
    I.models.pins = pins
    res['sizes'] = I.models.sizes
    try:
        st = IP.State({}, T)
        if warm:
            I.models.warm = True
            st = I.call(name, [], st, {})[1]
            if st is None:
                raise Unsupported('no earlier use')
            I.models.warm = False
            I.obs, I.abn = [], []
            for x in ('throwspec', 'keeps', 'guards'):
                setattr(I.models, x, [])
            I.models.asserts_ok, I.models.fdiv, I.alloc_fail = False, None, False
        r = I.call(name, [], st, {})
        final = r[1]
        res['history'] = final is not None and written(I, final)
    except Unsupported as e:
        res['status'] = 'undecided'
        res['reason'] = str(e)
    except Timeout:
        res['status'] = 'undecided'
        res['reason'] = 'time limit'
    except RecursionError:
        res['status'] = 'undecided'
        res['reason'] = 'recursion limit'
    except (KeyError, AttributeError, TypeError, ValueError, IndexError, ZeroDivisionError, OverflowError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res['status'] = 'undecided'
        res['reason'] = 'internal: %s %s at %s:%d' % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno)
        res['internal'] = True
    signal.setitimer(signal.ITIMER_REAL, 0)
    res['funcs'] = sorted(mod.fns[f].dem for f in I.funcs_seen if mod.fns[f].dem and 'malg::' in mod.fns[f].dem or 'feq' in mod.fns[f].dem)
    res['loops'] = sum(I.loops_seen.values())
    res['stats'] = I.stats
    res['hard'] = {a.a[0] for a in I.hard if isinstance(a, TM.Atom) and a.op == 'sym'}
    res['assumed'] = I.models.assumed
    res['t_analysis'] = time.time() - t0
    if res['status'] != 'ok':
        return res
    D = Decider(seed, tries, smax)
    obs = []
    for o in I.obs:
        obs.append((o.kind, o.note, o.pc, o.cond, o.binders, o.loc, o.stack, o.pair))
    specs = I.models.throwspec
    # abnormal ends
    for k, o in enumerate(I.abn):
        if o.caught:
            pass
        elif o.kind == 'throw':
            act = [s for s in specs if k >= s[4]]
            if I.alloc_fail and 'bad_alloc' in str(o.info):
                pass
            elif not act:
                obs.append(('throw', 'no exception (%s)' % o.info, o.state.pc, F, o.binders, o.loc, o.stack, None))
            else:
                s = act[-1]
                obs.append(('throws', s[0], o.state.pc, s[2], o.binders, o.loc, o.stack, None))
        elif o.kind == 'unwound':
            kept = rooted(I, o.state) if I.global0 else ()
            for rid, r in o.state.mem.items():
                if r.heap and r.alive is not F and rid not in kept:
                    obs.append(('leak', 'storage is released when an exception leaves (%s)' % o.info, o.state.pc, bnot(r.alive), o.binders, o.loc, o.stack, None))
        elif o.kind == 'rethrow':
            pass
        elif o.kind == 'assert' and I.models.asserts_ok:
            pass
        else:
            obs.append((o.kind, 'the operation must not end the process', o.state.pc, F, o.binders, o.loc, o.stack, None))
    end = ('', 0, name)
    if final is not None:
        for s in specs:
            if s[3]:
                obs.append(('throws', s[0] + ' (rejected)', final.pc, bnot(s[2]), (), s[5], (name,), None))
        kept = rooted(I, final) if I.global0 else ()
        for rid, r in final.mem.items():
            if r.heap and r.alive is not F and rid not in kept:
                obs.append(('leak', 'storage is released', final.pc, bnot(r.alive), (), end, (name,), None))
    for tag, p, nm, k0 in I.models.keeps:
        for k, o in enumerate(I.abn):
            if o.kind != 'throw' or o.caught or k < k0:
                continue
            ctx = I.ctx(o.state.pc)
            IP.AN.ctx = ctx
            try:
                for c, rid, idx, off in I.resolve(p, o.state, ctx, None):
                    if rid is None:
                        continue
                    r = o.state.mem.get(rid)
                    if r is None:
                        obs.append(('eq', tag, band(o.state.pc, c), F, o.binders, o.loc, o.stack, None))
                        continue
                    obs.append(('eq', tag + ' (still alive)', band(o.state.pc, c), r.alive, o.binders, o.loc, o.stack, None))
                    if r.kind != 'arr':
                        continue
                    i = sym('idx', True, True)
                    pc = bands([o.state.pc, c, ge0(sub(sub(r.size, ONE), scale(i, r.stride))) if r.size is not None else T])
                    ctx2 = I.ctx(pc)
                    IP.AN.ctx = ctx2
                    for sb, (sz, A) in r.slots.items():
                        kd = TM.elem_kind(A)
                        nn = nm if r.stride == sz else nm + ('.re' if sb == 0 else '.im')
                        x = IP.a_read(A, i)
                        y = IP.a_read(a_in(nn + "#" + kd), i)
                        obs.append(('eq', tag, pc, eq0(sub(x, y), True), o.binders, o.loc, o.stack, (x, y)))
            except Unsupported as e:
                obs.append(('eq', tag, T, None, (), o.loc, o.stack, None))
    for tag, c, rid, cells, k0 in I.models.guards:
        for k, o in enumerate(I.abn):
            if o.kind != 'throw' or o.caught or k < k0:
                continue
            r = o.state.mem.get(rid)
            for off, (sz, v) in cells.items():
                w = r.cells.get(off) if r is not None else None
                pc = band(o.state.pc, c)
                if w is None:
                    obs.append(('eq', tag, pc, F, o.binders, o.loc, o.stack, None))
                elif isinstance(v, Poly) and isinstance(w[1], Poly):
                    ctx = I.ctx(pc)
                    IP.AN.ctx = ctx
                    obs.append(('eq', tag + ' (field %d)' % off, pc, ctx.simp(eq0(sub(v, w[1]))), o.binders, o.loc, o.stack, None))
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        for kind, note, pc, cond, binders, loc, stack, pair in obs:
            st, w = 'undecided', ''
            if cond is not None:
                try:
                    if D.prove(pc, cond, binders):
                        st = 'proved'
                    elif kind in ('div0',) and False:
                        pass
                    else:
                        w = D.refute(pc, cond, binders, pair)
                        if w is not None:
                            st = 'refuted'
                        else:
                            w = ''
                except (Unsupported, RecursionError) as e:
                    w = str(e)
            res['obs'].append({'kind': kind, 'note': note, 'status': st, 'file': loc[0], 'line': loc[1], 'func': loc[2],
                               'chain': [mod.fns[f].dem if f in mod.fns else f for f in stack], 'witness': w or '',
                               'form': '' if st == 'proved' else ('%r' % (cond,))[:FORMW], 'exact': True})
    except Timeout:
        res['status'] = 'partial'
        res['reason'] = 'time limit'
    signal.setitimer(signal.ITIMER_REAL, 0)
    res['t'] = time.time() - t0
    return res
